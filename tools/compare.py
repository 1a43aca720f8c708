"""compare.py cxx|py ...: every contract entry of the language(s) on $WODLINT_REPO against specs/."""
import os
import sys
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, root)
from wodlint import contract, props  # noqa: E402


class Ctx(object):

  def __init__(self):
    self.bad = []

  def ob(self, rule, construct, ok, message='', where=''):
    if not ok:
      self.bad.append((construct, message, where))

  def count(self, *a):
    pass


only = [f for a in sys.argv[1:] if a.startswith('--files=') for f in a[8:].split(',')]
langs = set(a for a in sys.argv[1:] if not a.startswith('--'))
if only:
  langs = {'py', 'cxx', 'pyconst'} & ({'cxx'} if all(f.endswith(('.cc', '.h')) for f in only) else {'py', 'pyconst'})
if 'py' in langs:
  langs.add('pyconst')
todo = []
for p in props.PROPS:
  if os.path.exists(contract.spec_path(p['id'])):
    s = contract.read_spec(p['id'])
    todo += [(p['id'], s, x) for x in s['entries'] if x['entry']['lang'] in langs
             and (not only or any(f.endswith('.h') or x['entry']['file'].endswith(f) if 'file' in x['entry'] else
                              ('.' + x['entry']['fn'] + '.').find('.' + f[:-3].replace('/', '.') + '.') >= 0 for f in only))]
ctx = Ctx()
try:
  res = contract.analyse_specs([x for _, _, x in todo])
except contract.Broken as e:
  print('BROKEN', e)
  sys.exit(2)
nb = 0
for (q, s, x), r in zip(todo, res):
  name = contract.eid(x['entry'])
  if 'broken' in r:
    if contract.private(x['entry']) and r['broken'].startswith(('anchor: 0 ', 'anchor: no function')):
      print('GONE', q, name)
      continue
    print('BROKEN', q, name, r['broken'][:600])
    nb += 1
    continue
  want, got, site = x['sinks'], r['sinks'], r['site']
  w = int(os.environ.get('SHOW', '700'))
  bad = []
  for k in sorted(want):
    if k not in got:
      bad.append('  gone: ' + contract.near(k, [y for y in got if y not in want], s['long'], r['long'])[:w])
    elif got[k] != want[k]:
      bad.append('  %s: %s' % (k[:100], contract.diff(want[k], got[k], s['long'], r['long'])[:w]))
  for k in sorted(got):
    if k not in want and x['entry']['lang'] != 'pyconst':
      bad.append('  extra: ' + k[:200])
  if bad:
    nb += 1
    print('ALARM', q, name)
    print('\n'.join(bad[:6]))
print('%d entries, %d alarms' % (len(todo), nb))
