"""Developer tool: recompute contract files after review.

  python3-vt -m wodlint.freeze surface | all | views | P03 [P04 ...] | show P03 entry-substring
"""
import json
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from wodlint import contract, entries, props  # noqa: E402


def freeze(ids):
  opq = entries.surface()
  ids = [p for p in ids if p == 'P01' or True]
  descs = {p: entries.enumerate_entries(props.BY_ID[p]) for p in ids}
  res = contract.analyse_all([d for p in ids for d in descs[p]], [opq] * sum(len(descs[p]) for p in ids))
  k = 0
  for p in ids:
    if not descs[p]:
      continue
    out, long = [], {}
    for d in descs[p]:
      r = res[k]
      k += 1
      if 'broken' in r:
        print('NOT FROZEN', p, r['broken'])
        continue
      if r['time'] > 20:
        print('slow', p, contract.eid(d), round(r['time']))
      long.update(r['long'])
      out.append({'entry': d, 'sinks': r['sinks'], 'reached': r['reached'], 'math': r['math']})
    write(p, out, long)
  link()


def write(p, out, long, uses=None):
  with open(contract.spec_path(p), 'w') as fh:
    json.dump({'entries': out, 'long': long, 'uses': uses or {}}, fh, indent=0, sort_keys=True)


def link():
  """Which entries of the properties a property uses are reached from its own."""
  specs = {}
  for p in props.PROPS:
    if os.path.exists(contract.spec_path(p['id'])):
      specs[p['id']] = contract.read_spec(p['id'])
  for p in props.PROPS:
    if p['id'] not in specs:
      continue
    own = specs[p['id']]
    reached = set(x for e in own['entries'] for x in e['reached'])
    uses = {}
    more = True
    while more:
      more = False
      for q in p.get('uses', ()):
        for e in specs.get(q, {'entries': ()})['entries']:
          n = contract.eid(e['entry'])
          if e['entry']['fn'] in reached and n not in uses.get(q, ()):
            uses.setdefault(q, []).append(n)
            reached.update(e['reached'])
            more = True
    own['uses'] = {q: sorted(v) for q, v in uses.items()}
    write(p['id'], own['entries'], own['long'], own['uses'])


def views():
  """Record the digests of the other views (see contract.analyse_specs)."""
  opq = entries.surface()
  specs = {p['id']: contract.read_spec(p['id']) for p in props.PROPS if os.path.exists(contract.spec_path(p['id']))}
  jobs = [(x, v) for s in specs.values() for x in s['entries'] for v in contract.views(x)]
  todo = [contract.view_job(x, v, opq) for x, v in jobs]
  for s in specs.values():
    for x in s['entries']:
      x.pop('views', None)
  n = 0
  for (x, v), r in zip(jobs, contract.analyse_all([d for d, _ in todo], [o for _, o in todo], contract.VIEW_LIMIT)):
    if 'broken' not in r:
      x.setdefault('views', {})[v] = contract.digest(r)
      n += 1
  print('%d of %d views recorded' % (n, len(jobs)))
  for p, s in specs.items():
    write(p, s['entries'], s['long'], s['uses'])


if __name__ == '__main__':
  if sys.argv[1] == 'surface':
    entries.write_surface()
  elif sys.argv[1] == 'link':
    link()
  elif sys.argv[1] == 'views':
    views()
  elif sys.argv[1] == 'show':
    for d in entries.enumerate_entries(props.BY_ID[sys.argv[2]]):
      if sys.argv[3] in contract.eid(d):
        e = entries.make(d, entries.surface())
        o, site, flow = contract.sinks(e)
        print('==', e.id, site)
        for k in sorted(o):
          print('  ', k, ':=', o[k])
        for h, x in contract.refs(list(o) + list(o.values()), flow.long).items():
          print('     ', h, x)
  else:
    freeze([p['id'] for p in props.PROPS] if sys.argv[1] == 'all' else sys.argv[1:])
