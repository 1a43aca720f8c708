"""Which functions each property's contract covers.

`enumerate_entries` lists the public surface of the property's files on the
tree the contract is frozen on: the list is stored in specs/<property>.json,
so a helper introduced later is expanded where it is used, and a function of
the surface that has disappeared is reported.  The names in specs/surface.json
(every entry of every property) are the boundary at which a call is summarised
by its own contract instead of being expanded.
"""
import ast
import json
import os
import re

from wodlint import contract, cxxload, props, renames

ROOT = contract.ROOT
PFX = 'waymo_open_dataset.'


def surface():
  path = ROOT + '/specs/surface.json'
  if not os.path.exists(path):
    return frozenset(), frozenset()
  with open(path) as fh:
    d = json.load(fh)
  return frozenset(d['cxx']), frozenset(d['py'])


def enumerate_entries(p):
  """[descriptor] of one property record on the current tree."""
  out = []
  if p.get('cxx') or p.get('cxx_extra'):
    prog = contract.cxx_program()
    fns = sorted((f for fs in prog.by_name.values() for f in fs), key=lambda f: (f['file'], f['line'], f['name']))
    seen = set()
    for f in fns:
      file = f['file'][len('waymo_open_dataset/'):]
      hit = file in p.get('cxx', ()) and file.endswith('.cc') and 'anonymous namespace' not in f['name'] and not f.get('static')
      for fl, pat in p.get('cxx_extra', ()):
        if file == fl and re.search(pat, f['name']):
          hit = True
      for fl, pat in p.get('cxx_skip', ()):
        if file == fl and re.search(pat, f['name']):
          hit = False
      if not hit or not f.get('body'):
        continue
      d = {'lang': 'cxx', 'fn': f['name'], 'file': f['file'], 'sig': [x[2] for x in f['params']],
           'math': file.startswith('math/')}
      k = json.dumps(d, sort_keys=True)
      if k not in seen:
        seen.add(k)
        out.append(d)
  for mod in p.get('py', ()):
    path = cxxload.PKG + '/' + mod.replace('.', '/')
    path = path + '/__init__.py' if os.path.isdir(path) else path + '.py'
    with open(path) as fh:
      tree = ast.parse(fh.read())
    skip = p.get('py_skip', ())
    out.append({'lang': 'pyconst', 'fn': mod})
    for n in tree.body:
      if isinstance(n, ast.FunctionDef) and not n.name.startswith('_'):
        out.append({'lang': 'py', 'fn': mod + '.' + n.name})
      if isinstance(n, ast.ClassDef):
        for x in n.body:
          if isinstance(x, ast.FunctionDef) and (not x.name.startswith('_') or x.name.startswith('__') or overrides(tree, n, x.name)):
            if any(isinstance(d, ast.Name) and d.id == 'abstractmethod' or isinstance(d, ast.Attribute) and
                   d.attr == 'abstractmethod' for d in x.decorator_list):
              continue
            out.append({'lang': 'py', 'fn': '%s.%s.%s' % (mod, n.name, x.name)})
    out = [d for d in out if not any(re.search(s, d['fn']) for s in skip)]
  for q in p.get('py_extra', ()):
    out.append({'lang': 'py', 'fn': q})
  return out


def overrides(tree, cls, name):
  """Does a base class in the same module define the (private) method too?"""
  by = {c.name: c for c in tree.body if isinstance(c, ast.ClassDef)}
  st, seen = [b.id for b in cls.bases if isinstance(b, ast.Name)], set()
  while st:
    b = st.pop()
    if b in by and b not in seen:
      seen.add(b)
      if any(isinstance(x, ast.FunctionDef) and x.name == name for x in by[b].body):
        return True
      st += [y.id for y in by[b].bases if isinstance(y, ast.Name)]
  return False


def make(d, opq):
  cxx, py = opq
  if d['lang'] == 'cxx':
    return contract.Cxx(d['fn'], d['file'], d['sig'], opaque=cxx, inline_math=d.get('math', False))
  if d['lang'] == 'py':
    return contract.Py(d['fn'], opaque=py - {d['fn']})
  return contract.PyConst(d['fn'], opaque=py)


def write_surface():
  cxx, py = set(), set()
  for p in props.PROPS:
    for d in enumerate_entries(p):
      if d['lang'] == 'cxx' and not any(d['file'].endswith(fl) and re.search(pat, d['fn'])
                                        for fl, pat in p.get('cxx_inline', ())):
        cxx.add(d['fn'])
      if d['lang'] == 'py':
        py.add(d['fn'])
  with open(ROOT + '/specs/surface.json', 'w') as fh:
    json.dump({'cxx': sorted(cxx), 'py': sorted(py)}, fh, indent=0)
  mods = {}
  for path in cxxload.repo_files('.py'):
    rel = os.path.relpath(path, cxxload.SRC)
    if not path.endswith('_test.py') and not path.endswith('_pb2.py'):
      name = re.sub(r'/__init__$', '', rel[:-3]).replace('/', '.')
      with open(path) as fh:
        mods[name] = renames.functions(ast.parse(fh.read()))
  renames.write(cxxload.program_json(), mods)
