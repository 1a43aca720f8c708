"""The repository's message types, resolved by protoc (descriptor sets)."""
from wodlint.cxxload import descriptor_set, Broken

TYPES = {1: 'double', 2: 'float', 3: 'int64', 4: 'uint64', 5: 'int32', 6: 'fixed64', 7: 'fixed32',
         8: 'bool', 9: 'string', 10: 'group', 11: 'message', 12: 'bytes', 13: 'uint32', 14: 'enum',
         15: 'sfixed32', 16: 'sfixed64', 17: 'sint32', 18: 'sint64'}
LABELS = {1: 'optional', 2: 'required', 3: 'repeated'}


def fields(b):
  """(number, value) pairs of one encoded message."""
  k = 0

  def varint():
    nonlocal k
    v = s = 0
    while True:
      x = b[k]
      k += 1
      v |= (x & 127) << s
      s += 7
      if x < 128:
        return v
  out = []
  while k < len(b):
    tag = varint()
    w = tag & 7
    if w == 0:
      out.append((tag >> 3, varint()))
    elif w == 2:
      n = varint()
      out.append((tag >> 3, b[k:k + n]))
      k += n
    elif w == 1:
      out.append((tag >> 3, b[k:k + 8]))
      k += 8
    elif w == 5:
      out.append((tag >> 3, b[k:k + 4]))
      k += 4
    else:
      raise Broken('descriptor set: wire type %d' % w)
  return out


def one(fs, n, d=None):
  for k, v in fs:
    if k == n:
      d = v
  return d


def s64(v):
  return v - (1 << 64) if v >= 1 << 63 else v


class Schema(object):

  def __init__(self):
    self.messages, self.enums, self.files, self.where, self.pkgs = {}, {}, [], {}, {}
    for k, v in fields(descriptor_set()):
      if k == 1:
        self.file(fields(v))

  def file(self, fs):
    name = one(fs, 1).decode()
    if not name.startswith('waymo_open_dataset/'):
      return
    pkg = (one(fs, 2) or b'').decode()
    syntax = (one(fs, 12) or b'proto2').decode()
    self.files.append(name)
    self.pkgs[name] = pkg
    for k, v in fs:
      if k == 4:
        self.message(pkg, fields(v), name, syntax)
      if k == 5:
        self.enum(pkg, fields(v), name)

  def enum(self, scope, fs, file):
    full = scope + '.' + one(fs, 1).decode()
    self.where[full] = file
    self.enums[full] = {one(fields(v), 1).decode(): s64(one(fields(v), 2, 0)) for k, v in fs if k == 2}

  def message(self, scope, fs, file, syntax):
    full = scope + '.' + one(fs, 1).decode()
    self.where[full] = file
    oneofs = [one(fields(v), 1).decode() for k, v in fs if k == 8]
    out = {}
    for k, v in fs:
      if k == 3:
        self.message(full, fields(v), file, syntax)
      elif k == 4:
        self.enum(full, fields(v), file)
      elif k == 2:
        f = fields(v)
        opt = fields(one(f, 8, b''))
        oo = one(f, 9)
        d = {'name': one(f, 1).decode(), 'type': TYPES[one(f, 5)], 'label': LABELS[one(f, 4)],
             'default': one(f, 7).decode() if one(f, 7) is not None else None,
             'oneof': oneofs[oo] if oo is not None else None,
             'packed': bool(one(opt, 2)) if one(opt, 2) is not None else syntax == 'proto3'}
        tn = one(f, 6)
        if tn:
          d['of'] = tn.decode().lstrip('.')
        out[str(one(f, 3))] = d
    self.messages[full] = {'fields': out, 'map': bool(one(fields(one(fs, 7, b'')), 7))}

  def python(self):
    """Dotted Python name -> number of the enum constants, {enum: {name: number}} of the enums."""
    out, enums = {}, {}
    for full, vals in self.enums.items():
      f = self.where[full]
      mod = f[:-len('.proto')].replace('/', '.') + '_pb2'
      rel = full[len(self.pkgs[f]) + 1:] if self.pkgs[f] else full
      enums[mod + '.' + rel] = vals
      for n, v in vals.items():
        out[mod + '.' + rel + '.' + n] = v
        out['.'.join([mod] + rel.split('.')[:-1] + [n])] = v
    for d in (out, enums):
      for k, v in list(d.items()):
        q = k.split('.')
        d['.'.join(q[[i for i, x in enumerate(q) if x.endswith('_pb2')][0]:])] = v
    rep, single, msg, scalar = set(), set(), set(), set()
    for m in self.messages.values():
      for x in m['fields'].values():
        (rep if x['label'] == 'repeated' else single).add(x['name'])
        (msg if x['label'] == 'repeated' or x['type'] == 'message' else scalar).add(x['name'])
    return out, enums, rep - single, msg - scalar

  def spec(self):
    return {'messages': {k: v for k, v in sorted(self.messages.items())}, 'enums': dict(sorted(self.enums.items()))}
