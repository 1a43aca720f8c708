"""The repository's Python modules: parsed sources, name resolution, and the
parameter names of library functions."""
import ast
import os

from wodlint import renames
from wodlint.cxxload import Broken, SRC

EXT = {'numpy': 'np', 'tensorflow': 'tf', 'pandas': 'pd', 'dask.dataframe': 'dd', 'tensorflow_graphics': 'tfg',
       'tensorflow.compat.v2': 'tf', 'tensorflow.compat.v1': 'tf', 'pyarrow': 'pa', 'tensorflow_probability': 'tfp'}


class Fn(object):

  def __init__(self, mod, node, cls=None, closure=None):
    self.mod, self.node, self.cls, self.closure = mod, node, cls, closure
    self.name = (cls.name + '.' if cls else '') + getattr(node, 'name', 'lambda')
    self.decos = [self.deco(d) for d in getattr(node, 'decorator_list', [])]

  def deco(self, d):
    d = d.func if isinstance(d, ast.Call) else d
    return d.attr if isinstance(d, ast.Attribute) else getattr(d, 'id', '?')

  def __getitem__(self, k):    # the fields CxxFlow's bookkeeping reads
    return {'name': self.mod.name + '.' + self.name, 'file': self.mod.file, 'line': getattr(self.node, 'lineno', 0)}[k]

  def get(self, k, d=None):
    try:
      return self[k]
    except KeyError:
      return d

  @property
  def qual(self):
    return self.mod.name + '.' + self.name


class Cls(object):

  def __init__(self, mod, node):
    self.mod, self.node, self.name = mod, node, node.name
    self.methods, self.attrs, self.anns, self.order = {}, {}, {}, []
    self.decos = [Fn(mod, node).deco(d) for d in node.decorator_list]
    for x in node.body:
      if isinstance(x, (ast.FunctionDef, ast.AsyncFunctionDef)):
        f = Fn(mod, x, self)
        if 'setter' in f.decos or 'overload' in f.decos:
          continue
        self.methods[x.name] = f
      elif isinstance(x, ast.Assign):
        for y in x.targets:
          if isinstance(y, ast.Name):
            self.attrs[y.id] = x.value
      elif isinstance(x, ast.AnnAssign) and isinstance(x.target, ast.Name):
        self.anns[x.target.id] = x.annotation
        self.order.append(x.target.id)
        if x.value is not None:
          self.attrs[x.target.id] = x.value

  @property
  def qual(self):
    return self.mod.name + '.' + self.name

  @property
  def dataclass(self):
    return any(d in ('dataclass', 'frozen', 's', 'define') for d in self.decos)


class Module(object):

  def __init__(self, name, file):
    self.name, self.file = name, file
    with open(file) as fh:
      try:
        self.tree = ast.parse(fh.read(), file)
      except SyntaxError as e:
        raise Broken('cannot parse %s: %s' % (file, e))
    self.tree = renames.py(name, self.tree)
    self.imports, self.funcs, self.classes, self.consts = {}, {}, {}, {}
    self.consttrees = {}
    self.body(self.tree.body)

  def body(self, stmts):
    for x in stmts:
      if isinstance(x, ast.Import):
        for a in x.names:
          if a.asname:
            self.imports[a.asname] = a.name
          else:
            self.imports[a.name.split('.')[0]] = a.name.split('.')[0]
      elif isinstance(x, ast.ImportFrom):
        base = x.module or ''
        if x.level:
          pk = self.name.split('.')
          pk = pk[:len(pk) - x.level + (1 if self.file.endswith('__init__.py') else 0)]
          base = '.'.join(pk + ([x.module] if x.module else []))
        for a in x.names:
          self.imports[a.asname or a.name] = base + '.' + a.name
      elif isinstance(x, (ast.FunctionDef, ast.AsyncFunctionDef)):
        self.funcs[x.name] = Fn(self, x)
      elif isinstance(x, ast.ClassDef):
        self.classes[x.name] = Cls(self, x)
      elif isinstance(x, ast.Assign):
        for y in x.targets:
          if isinstance(y, ast.Name):
            self.consts[y.id] = x.value
          elif isinstance(y, ast.Tuple):
            for k, z in enumerate(y.elts):
              if isinstance(z, ast.Name):
                self.consts[z.id] = ast.Subscript(value=x.value, slice=ast.Constant(k))
      elif isinstance(x, ast.AnnAssign) and isinstance(x.target, ast.Name) and x.value is not None:
        self.consts[x.target.id] = x.value
      elif isinstance(x, (ast.If, ast.Try)):
        self.body(x.body)


class PyProgram(object):

  def __init__(self, src=SRC):
    self.src = src
    self.mods = {}

  def module(self, name):
    if name in self.mods:
      return self.mods[name]
    p = self.src + '/' + name.replace('.', '/')
    m = None
    if name.startswith('waymo_open_dataset') and not name.endswith('_pb2'):
      if os.path.exists(p + '.py'):
        m = Module(name, p + '.py')
      elif os.path.exists(p + '/__init__.py'):
        m = Module(name, p + '/__init__.py')
      elif os.path.isdir(p):
        m = None
    self.mods[name] = m
    return m

  def is_pkg(self, name):
    return os.path.isdir(self.src + '/' + name.replace('.', '/'))

  def resolve(self, dotted, depth=0):
    """dotted name -> ('fn', Fn) | ('cls', Cls) | ('const', mod, expr) | ('mod', name) | ('ext', name)"""
    if depth > 8:
      return ('ext', dotted)
    if not dotted.startswith('waymo_open_dataset'):
      for k in sorted(EXT, key=len, reverse=True):
        if dotted == k or dotted.startswith(k + '.'):
          return ('ext', EXT[k] + dotted[len(k):])
      return ('ext', dotted)
    parts = dotted.split('.')
    for k in range(len(parts), 0, -1):
      mn = '.'.join(parts[:k])
      if mn.endswith('_pb2') or any(q.endswith('_pb2') for q in parts[:k]):
        i = [j for j, q in enumerate(parts) if q.endswith('_pb2')][0]
        return ('ext', '.'.join(parts[i:]))
      m = self.module(mn)
      if m is None:
        if k == len(parts) and self.is_pkg(mn):
          return ('mod', mn)
        continue
      rest = parts[k:]
      if not rest:
        return ('mod', mn)
      n = rest[0]
      if n in m.funcs and len(rest) == 1:
        return ('fn', m.funcs[n])
      if n in m.classes:
        cl = m.classes[n]
        if len(rest) == 1:
          return ('cls', cl)
        if len(rest) == 2:
          return ('clsattr', cl, rest[1])
        return ('ext', dotted)
      if n in m.consts:
        if len(rest) == 1:
          return ('const', m, m.consts[n], n)
        return ('ext', dotted)
      if n in m.imports:
        return self.resolve('.'.join([m.imports[n]] + rest[1:]), depth + 1)
      return ('ext', dotted)
    return ('ext', dotted)

  def fn(self, dotted):
    r = self.resolve(dotted)
    if r[0] == 'fn':
      return r[1]
    if r[0] == 'clsattr':
      m = self.method(r[1], r[2])
      if m is not None:
        return m
    raise Broken('anchor: no function %s' % dotted)

  def bases(self, cl):
    out = []
    for b in cl.node.bases:
      n = dotted_name(b)
      if n is None:
        continue
      d = self.lookup(cl.mod, n)
      if d and d[0] == 'cls':
        out.append(d[1])
    return out

  def mro(self, cl):
    out = [cl]
    for b in self.bases(cl):
      for x in self.mro(b):
        if x not in out:
          out.append(x)
    return out

  def method(self, cl, name):
    for k in self.mro(cl):
      if name in k.methods:
        return k.methods[name]
    return None

  def ext_bases(self, cl):
    out = set()
    for k in self.mro(cl):
      for b in k.node.bases:
        n = dotted_name(b)
        if n:
          out.add(n.split('.')[-1])
    return out

  def is_enum(self, cl):
    return bool(self.ext_bases(cl) & {'Enum', 'IntEnum', 'Flag', 'IntFlag', 'StrEnum'})

  def lookup(self, mod, dotted):
    head, _, rest = dotted.partition('.')
    if head in mod.funcs or head in mod.classes or head in mod.consts:
      return self.resolve(mod.name + '.' + dotted)
    if head in mod.imports:
      return self.resolve(mod.imports[head] + ('.' + rest if rest else ''))
    return None


def dotted_name(e):
  if isinstance(e, ast.Name):
    return e.id
  if isinstance(e, ast.Attribute):
    b = dotted_name(e.value)
    return b + '.' + e.attr if b else None
  if isinstance(e, ast.Subscript):
    return dotted_name(e.value)
  if isinstance(e, ast.Constant) and isinstance(e.value, str):
    return e.value
  return None


# positional parameter names of library functions, so that f(x, 1) == f(x, axis=1)
SIG = {}


def _sig(names, *params):
  for n in names.split():
    SIG[n] = params


_sig('np.sum np.mean np.max np.min np.any np.all np.prod np.std np.var np.argmax np.argmin np.cumsum np.amax np.amin np.argsort np.sort np.median', 'a', 'axis')
_sig('tf.reduce_sum tf.reduce_mean tf.reduce_max tf.reduce_min tf.reduce_any tf.reduce_all tf.reduce_prod', 'input_tensor', 'axis', 'keepdims')
_sig('tf.concat', 'values', 'axis')
_sig('tf.stack tf.unstack', 'values', 'axis')
_sig('np.concatenate np.stack', 'arrays', 'axis')
_sig('tf.cast', 'x', 'dtype')
_sig('tf.expand_dims tf.squeeze', 'input', 'axis')
_sig('np.expand_dims np.squeeze', 'a', 'axis')
_sig('tf.reshape', 'tensor', 'shape')
_sig('np.reshape', 'a', 'newshape')
_sig('tf.where np.where', 'condition', 'x', 'y')
_sig('tf.gather', 'params', 'indices', 'validate_indices', 'axis', 'batch_dims')
_sig('tf.gather_nd', 'params', 'indices')
_sig('tf.zeros tf.ones np.zeros np.ones', 'shape', 'dtype')
_sig('tf.fill', 'dims', 'value')
_sig('np.full', 'shape', 'fill_value', 'dtype')
_sig('tf.zeros_like tf.ones_like np.zeros_like np.ones_like', 'input', 'dtype')
_sig('tf.constant tf.convert_to_tensor', 'value', 'dtype')
_sig('np.array np.asarray', 'object', 'dtype')
_sig('tf.tile', 'input', 'multiples')
_sig('np.tile np.repeat', 'A', 'reps', 'axis')
_sig('tf.clip_by_value', 't', 'clip_value_min', 'clip_value_max')
_sig('np.clip', 'a', 'a_min', 'a_max')
_sig('tf.transpose', 'a', 'perm')
_sig('np.transpose', 'a', 'axes')
_sig('tf.pad', 'tensor', 'paddings', 'mode', 'constant_values')
_sig('tf.one_hot', 'indices', 'depth')
_sig('tf.linalg.matmul tf.matmul', 'a', 'b')
_sig('tf.einsum np.einsum', 'equation')
_sig('tf.cumsum tf.argmax tf.argmin', 'x', 'axis')
_sig('tf.norm tf.linalg.norm', 'tensor', 'ord', 'axis')
_sig('np.linalg.norm', 'x', 'ord', 'axis')
_sig('tf.linspace np.linspace', 'start', 'stop', 'num')
_sig('tf.broadcast_to', 'input', 'shape')
_sig('tf.boolean_mask', 'tensor', 'mask', 'axis')
_sig('tf.scatter_nd', 'indices', 'updates', 'shape')
_sig('tf.math.divide_no_nan tf.divide_no_nan', 'x', 'y')
_sig('np.mod tf.floormod tf.mod', 'x', 'y')
_sig('.astype', 'self', 'dtype')
_sig('np.roll tf.roll', 'a', 'shift', 'axis')
_sig('np.split tf.split', 'value', 'num_or_size_splits', 'axis')

ND_METHODS = {'sum', 'mean', 'max', 'min', 'any', 'all', 'prod', 'std', 'var', 'argmax', 'argmin', 'cumsum', 'argsort',
              'reshape', 'transpose', 'squeeze', 'clip', 'round', 'repeat', 'dot', 'ravel', 'nonzero'}

ARITH_FN = {'np.add': 'add', 'tf.add': 'add', 'np.subtract': 'sub', 'tf.subtract': 'sub', 'np.multiply': 'mul',
            'tf.multiply': 'mul', 'np.divide': 'div', 'tf.divide': 'div', 'np.true_divide': 'div', 'operator.add': 'add'}
CMP_FN = {'equal': '==', 'not_equal': '!=', 'less': '<', 'less_equal': '<=', 'greater': '>', 'greater_equal': '>='}

TERMINATE = ('sys.exit', 'os._exit')


def unalias(n):
  if n.startswith('tf.math.') and n.count('.') == 2:
    return 'tf.' + n[8:]
  if n.startswith('tf.compat.v1.math.'):
    return 'tf.' + n[18:]
  return {'np.absolute': 'np.abs', 'np.amax': 'np.max', 'np.amin': 'np.min', 'tf.linalg.norm': 'tf.norm',
          'tf.linalg.matmul': 'tf.matmul', 'np.power': 'pow', 'tf.pow': 'pow', 'tf.mod': 'tf.floormod'}.get(n, n)


def own_nodes(fn):
  """Nodes of a function body, not descending into nested functions."""
  st = list(fn.body)
  while st:
    x = st.pop()
    yield x
    if isinstance(x, (ast.FunctionDef, ast.Lambda, ast.AsyncFunctionDef, ast.ClassDef)):
      continue
    st.extend(ast.iter_child_nodes(x))
