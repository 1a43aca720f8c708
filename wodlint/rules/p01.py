"""Every message and enum of the public formats, as protoc resolves them, is
compared with the published schema (specs/proto.json): a published field keeps
its number, name, type, label, default, packing and oneof; a published enum
value keeps its number; no new field is required or reuses a published number;
no new enum value aliases a published number.  Additions are allowed."""
import json
import os

from wodlint.protos import Schema

SPEC = os.path.join(os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__)))), 'specs', 'proto.json')


def check(ctx):
  ctx.explanation = __doc__
  s = Schema()
  with open(SPEC) as fh:
    spec = json.load(fh)
  ctx.set('proto_files', len(s.files))
  ctx.set('messages', len(s.messages))
  ctx.set('enums', len(s.enums))
  ctx.need(1000)
  for full, m in spec['messages'].items():
    where = s.where.get(full, '')
    cur = s.messages.get(full)
    if not ctx.ob('message-kept', full, cur is not None, 'the published message no longer exists', where):
      continue
    for num, f in m['fields'].items():
      g = cur['fields'].get(num)
      key = '%s.%s' % (full, f['name'])
      if not ctx.ob('field-kept', key, g is not None, 'field number %s (%s) is gone' % (num, f['name']), where):
        continue
      for a in ('name', 'type', 'of', 'label', 'default', 'oneof', 'packed'):
        ctx.ob('field-' + a, key, f.get(a) == g.get(a), '%s of field number %s was %r, is %r' % (a, num, f.get(a), g.get(a)), where)
    for num, g in cur['fields'].items():
      if num not in m['fields']:
        ctx.ob('no-new-required', '%s.%s' % (full, g['name']), g['label'] != 'required',
               'a required field makes every existing record unreadable', where)
  for full, vals in spec['enums'].items():
    where = s.where.get(full, '')
    cur = s.enums.get(full)
    if not ctx.ob('enum-kept', full, cur is not None, 'the published enum no longer exists', where):
      continue
    for n, v in vals.items():
      ctx.ob('enum-value', '%s.%s' % (full, n), cur.get(n) == v, 'value was %r, is %r' % (v, cur.get(n)), where)
    for n, v in cur.items():
      if n not in vals:
        ctx.ob('enum-no-alias', '%s.%s' % (full, n), v not in vals.values(), 'number %d already means another value' % v, where)
