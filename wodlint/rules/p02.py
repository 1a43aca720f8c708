"""Interface agreement of the native operators.  From each operator
registration (declared inputs, outputs, attributes), the kernel registered
under the same name (every input, attribute and output it touches, through the
call graph of its class) and the Python wrapper module: the kernel touches
exactly what is declared, input positions and output positions are in range,
wrappers pass exactly the declared parameters, and callers of the wrappers use
existing parameters and unpack the declared number of outputs."""
import ast
import os
import re

from wodlint import contract, cxxload
from wodlint.cxxload import Broken

OPS = ['metrics/ops/metrics_ops.cc', 'wdl_limited/camera/ops/camera_model_ops.cc']
WRAPPERS = {'metrics.ops.py_metrics_ops': ('gen_metrics_ops', OPS[0]),
            'wdl_limited.camera.ops.py_camera_model_ops': ('gen_camera_model_ops', OPS[1])}
STR = r'((?:"(?:[^"\\]|\\.)*"\s*)+)'


def text(path):
  with open(cxxload.PKG + '/' + path) as fh:
    s = fh.read()
  s = re.sub(r'R"(\w*)\((?:.|\n)*?\)\1"', '""', s)
  return re.sub(r'"(?:[^"\\\n]|\\.)*"|//[^\n]*|/\*(?:.|\n)*?\*/', lambda m: m.group(0) if m.group(0)[0] == '"' else ' ', s)


def lit(s):
  return ''.join(re.findall(r'"((?:[^"\\]|\\.)*)"', s))


def registrations(path):
  s = text(path)
  out = {}
  for m in re.finditer(r'REGISTER_OP\s*\(\s*%s\)' % STR, s):
    end = re.search(r'REGISTER_OP|\Z', s[m.end():]).start() + m.end()
    chunk = s[m.end():end]
    op = {'input': [], 'output': [], 'attr': []}
    for k in op:
      for a in re.finditer(r'\.\s*%s\s*\(\s*%s\)' % (k.capitalize(), STR), chunk):
        name, ty = lit(a.group(1)).split(':', 1)
        op[k].append((name.strip(), ty.strip()))
    out[lit(m.group(1))] = op
  return out


def kernels():
  """operator name -> [class name]"""
  out = {}
  for f in cxxload.sources():
    if '/ops/' not in f:
      continue
    s = text(os.path.relpath(f, cxxload.PKG))
    for m in re.finditer(r'REGISTER_KERNEL_BUILDER\s*\(', s):
      k, d = m.end(), 1
      while d:
        d += {'(': 1, ')': -1}.get(s[k], 0)
        k += 1
      arg = s[m.end():k - 1]
      name = re.match(r'\s*Name\s*\(\s*%s\)' % STR, arg)
      cls = re.search(r',\s*([\w:]+)\s*(?:<[\w\s]*>)?\s*$', arg)
      if not name or not cls:
        raise Broken('kernel registration not understood: ' + arg[:80])
      out.setdefault(lit(name.group(1)), set()).add((cls.group(1).split('::')[-1], os.path.relpath(f, cxxload.SRC)))
  return out


def calls(fn, prog, seen, out):
  """Context calls (method, first argument) reached from fn within its file."""
  if fn['id'] in seen:
    return
  seen.add(fn['id'])

  def walk(e):
    if not isinstance(e, list):
      return
    if e and e[0] in ('call', 'mcall') and len(e) > 3 and isinstance(e[1], str) and isinstance(e[3], list):
      n = e[1].split('::')
      if len(n) > 1 and n[-2] in ('OpKernelContext', 'OpKernelConstruction'):
        if n[-1] in ('input', 'set_output', 'allocate_output', 'GetAttr', 'mutable_output', 'mutable_input', 'forward_input_or_allocate_output'):
          out.append((n[-1], const(e[3][0]) if e[3] else None))
      else:
        for g in prog.by_name.get(e[1], []):
          if g['file'] == fn['file']:
            calls(g, prog, seen, out)
    for x in e:
      walk(x)
  walk(fn['body'])


def const(e):
  """The literal an argument is, or None."""
  st = [e]
  while st:
    x = st.pop()
    if isinstance(x, list) and x:
      if x[0] == 'str':
        return x[1]
      if x[0] == 'int':
        return x[1]
      st += [y for y in x[1:] if isinstance(y, list)]
  return None


def snake(n):
  return re.sub(r'(?<=[a-z0-9])(?=[A-Z])', '_', n).lower()


def check(ctx):
  ctx.explanation = __doc__
  prog = contract.cxx_program()
  regs = {}
  per = {}
  for f in OPS:
    r = registrations(f)
    per[f] = r
    regs.update(r)
  ctx.set('operators', len(regs))
  if len(regs) < 9:
    raise Broken('only %d operator registrations found' % len(regs))
  kern = kernels()
  for op, decl in sorted(regs.items()):
    ins = [x for x, _ in decl['input']]
    outs = [x for x, _ in decl['output']]
    attrs = [x for x, _ in decl['attr']]
    ctx.ob('names-distinct', op, len(set(ins + attrs)) == len(ins + attrs) and len(set(outs)) == len(outs), 'a name is declared twice')
    if not ctx.ob('kernel-registered', op, bool(kern.get(op)), 'no kernel is registered for the operator'):
      continue
    for cls, file in sorted(kern[op]):
      fns = [f for fs in prog.by_name.values() for f in fs if f['file'] == file and
             re.search(r'\b%s(<\w+>)?::\w+$' % cls, f['name'])]
      comp = [f for f in fns if f['name'].endswith('::Compute')]
      if not ctx.ob('kernel-computes', '%s: %s' % (op, cls), bool(comp), 'the kernel class has no Compute', file):
        continue
      got, seen = [], set()
      for f in fns:
        calls(f, prog, seen, got)
      ctx.count('context_calls', len(got))
      read = set()
      for m, a in got:
        if m in ('input', 'mutable_input'):
          if isinstance(a, int):
            ctx.ob('input-declared', '%s: input %d' % (op, a), a < len(ins), 'the operator declares %d inputs' % len(ins), file)
            read.add(ins[a] if a < len(ins) else a)
          elif isinstance(a, str):
            ctx.ob('input-declared', '%s: input %s' % (op, a), a in ins, 'the kernel reads an input that is not declared', file)
            read.add(a)
          else:
            read.update(ins)
        elif m == 'GetAttr' and isinstance(a, str):
          ctx.ob('attr-declared', '%s: attribute %s' % (op, a), a in attrs, 'the kernel reads an attribute that is not declared', file)
      for x in ins:
        ctx.ob('input-read', '%s: input %s' % (op, x), x in read, 'the kernel never reads this declared input', file)
      asked = {a for m, a in got if m == 'GetAttr'}
      for x in attrs:
        if x != 'T':
          ctx.ob('attr-read', '%s: attribute %s' % (op, x), x in asked or None in asked, 'the kernel never reads this declared attribute', file)
      wr = [a for m, a in got if m in ('set_output', 'allocate_output', 'forward_input_or_allocate_output')]
      if all(isinstance(a, (int, str)) for a in wr):
        idx = {outs.index(a) if a in outs else (a if isinstance(a, int) else -1) for a in wr}
        for k, x in enumerate(outs):
          ctx.ob('output-set', '%s: output %s' % (op, x), k in idx, 'the kernel never sets this declared output', file)
        for a in sorted(idx, key=str):
          ctx.ob('output-declared', '%s: output %s' % (op, a), isinstance(a, int) and 0 <= a < len(outs), 'the kernel sets an output that is not declared', file)
  # Python wrappers
  pp = contract.py_program()
  wrappers = {}
  for mod, (gen, f) in WRAPPERS.items():
    m = pp.module('waymo_open_dataset.' + mod)
    if m is None:
      raise Broken('no module ' + mod)
    site = os.path.relpath(m.file, cxxload.SRC)
    by = {snake(op): op for op in per[f]}
    used = set()
    for n in m.tree.body:
      for x in ast.walk(n):
        if isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name) and x.value.id == gen:
          used.add(x.attr)
          ctx.ob('wrapped-operator-exists', '%s.%s' % (mod, x.attr), x.attr in by, 'no such operator is registered', '%s:%d' % (site, x.lineno))
        if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and isinstance(x.func.value, ast.Name) and x.func.value.id == gen and x.func.attr in by:
          decl = per[f][by[x.func.attr]]
          names = [y for y, _ in decl['input']] + [y for y, _ in decl['attr']]
          need = [y for y, _ in decl['input']] + [y for y, ty in decl['attr'] if '=' not in ty and y != 'T']
          if any(isinstance(y, ast.Starred) for y in x.args) or any(k.arg is None for k in x.keywords):
            continue
          given = names[:len(x.args)] + [k.arg for k in x.keywords]
          where = '%s:%d' % (site, x.lineno)
          for g in given:
            ctx.ob('passed-parameter-declared', '%s: %s' % (x.func.attr, g), g in names, 'the operator has no such parameter', where)
          for g in need:
            ctx.ob('parameter-passed', '%s: %s' % (x.func.attr, g), g in given, 'the wrapper does not pass this parameter', where)
          ctx.ob('passed-once', x.func.attr, len(set(given)) == len(given), 'a parameter is passed twice', where)
      if isinstance(n, ast.FunctionDef):
        wrappers[mod + '.' + n.name] = ([a.arg for a in n.args.args], len(n.args.defaults), by.get(n.name) and per[f][by[n.name]])
      elif isinstance(n, ast.Assign) and isinstance(n.value, ast.Attribute) and n.value.attr in by:
        d = per[f][by[n.value.attr]]
        ps = [y for y, _ in d['input']] + [y for y, ty in d['attr'] if y != 'T']
        wrappers[mod + '.' + n.targets[0].id] = (ps, sum(1 for y, ty in d['attr'] if '=' in ty), d)
    for s, op in sorted(by.items()):
      ctx.ob('operator-wrapped', op, s in used, 'no wrapper calls this operator', site)
  callers(ctx, wrappers)
  ctx.need(190)


def callers(ctx, wrappers):
  short = {w.rsplit('.', 1)[0].rsplit('.', 1)[1] + '.' + w.rsplit('.', 1)[1]: v for w, v in wrappers.items()}
  for path in cxxload.repo_files('.py'):
    if path.endswith(('_test.py', '_pb2.py')):
      continue
    with open(path) as fh:
      src = fh.read()
    if 'py_metrics_ops' not in src and 'py_camera_model_ops' not in src:
      continue
    tree = ast.parse(src)
    site = os.path.relpath(path, cxxload.SRC)
    parents = {c: p for p in ast.walk(tree) for c in ast.iter_child_nodes(p)}
    for x in ast.walk(tree):
      if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and isinstance(x.func.value, ast.Name):
        w = short.get('%s.%s' % (x.func.value.id, x.func.attr))
        if w is None:
          if x.func.value.id in ('py_metrics_ops', 'py_camera_model_ops'):
            ctx.ob('wrapper-exists', '%s: %s' % (site, x.func.attr), False, 'the wrapper module has no such function', '%s:%d' % (site, x.lineno))
          continue
        params, ndef, decl = w
        if any(isinstance(y, ast.Starred) for y in x.args) or any(k.arg is None for k in x.keywords):
          continue
        given = params[:len(x.args)] + [k.arg for k in x.keywords]
        where = '%s:%d' % (site, x.lineno)
        for g in given:
          ctx.ob('call-parameter', '%s: %s(%s)' % (site, x.func.attr, g), g in params, 'the wrapper has no such parameter', where)
        for g in params[:len(params) - ndef]:
          ctx.ob('call-complete', '%s: %s(%s)' % (site, x.func.attr, g), g in given, 'a required parameter is missing', where)
        p = parents.get(x)
        if decl and isinstance(p, ast.Assign) and len(p.targets) == 1 and isinstance(p.targets[0], ast.Tuple):
          ctx.ob('outputs-unpacked', '%s: %s' % (site, x.func.attr), len(p.targets[0].elts) == len(decl['output']) or len(decl['output']) == 1,
                 '%d names for %d outputs' % (len(p.targets[0].elts), len(decl['output'])), where)
