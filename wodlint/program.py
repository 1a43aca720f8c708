"""The resolved C++ program: its functions and classes, and what the analyses record about it."""
import re
import sys

from wodlint.cxxload import Broken

sys.setrecursionlimit(20000)


class Effect(object):
  __slots__ = ('kind', 'loc', 'val', 'args', 'guards', 'line', 'fn', 'loops', 'seq')

  def __init__(self, kind, loc, val, args, guards, line, fn, loops):
    self.kind, self.loc, self.val, self.args = kind, loc, val, args
    self.guards, self.line, self.fn, self.loops = guards, line, fn, loops

  def __repr__(self):
    return '%s %s := %s  if %s  @%s:%s' % (
        self.kind, self.loc, self.val if self.val is not None else list(self.args or ()),
        ' && '.join(map(repr, self.guards)) or 'true', self.fn, self.line)


class Program(object):

  def __init__(self, js):
    self.js = js
    self.by_name = {}
    for fn in js['functions']:
      self.by_name.setdefault(fn['name'], []).append(fn)
    self.records = js['records']
    self.enums = js['enums']
    self.globals = {}
    for k, g in js['globals'].items():
      self.globals.setdefault(g['name'], g)
      self.globals[g['name'], g['file']] = g
    self.derived = {}
    for r in self.records.values():
      for b in r['bases']:
        self.derived.setdefault(b, set()).add(r['name'])

  def find(self, suffix, file=None, nparams=None):
    r = [fn for n, fs in self.by_name.items() if n == suffix or n.endswith('::' + suffix)
         for fn in fs if (file is None or fn['file'].endswith(file))
         and (nparams is None or len(fn['params']) == nparams)]
    return r

  def one(self, suffix, file=None, nparams=None):
    r = self.find(suffix, file, nparams)
    if len(r) != 1:
      raise Broken('anchor: expected one definition of %s%s, found %d' % (
          suffix, ' in ' + file if file else '', len(r)))
    return r[0]


class Dead(Exception):
  pass


def is_vector(ty):
  ty = re.sub(r'^const ', '', ty)
  return ty.startswith('std::vector<') and ty.endswith('>')


def elem_type(ty):
  """T of std::vector<T, ...>."""
  ty = re.sub(r'^const ', '', ty)
  if '<' not in ty:
    return ''
  d, out = 0, ''
  for ch in ty[ty.index('<') + 1:]:
    if ch == '<':
      d += 1
    elif ch == '>':
      if d == 0:
        break
      d -= 1
    elif ch == ',' and d == 0:
      break
    out += ch
  return out.strip()
