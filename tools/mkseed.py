"""mkseed.py ID PROP 'needs' 'breaks' FILE <<< 'OLD\n===>\nNEW'  (several edits separated by a line ----)

Writes seeded/ID/patch.diff from textual edits of /repo (left unchanged) and meta.json.
FILE may be given per edit as a first line '@path'.
"""
import json, os, subprocess, sys
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sid, prop, needs, breaks = sys.argv[1:5]
cur = sys.argv[5] if len(sys.argv) > 5 else None
assert not subprocess.run(['git', '-C', '/repo', 'status', '--porcelain', '-uno'], capture_output=True).stdout
try:
  for edit in sys.stdin.read().split('\n----\n'):
    if edit.startswith('@'):
      cur, edit = edit[1:].split('\n', 1)
    old, new = edit.split('\n===>\n')
    new = new.rstrip('\n') if not old.endswith('\n') else new
    path = '/repo/src/waymo_open_dataset/' + cur
    s = open(path).read()
    assert s.count(old) == 1, (s.count(old), old)
    open(path, 'w').write(s.replace(old, new))
  d = root + '/seeded/' + sid
  os.makedirs(d, exist_ok=True)
  diff = subprocess.run(['git', '-C', '/repo', 'diff'], capture_output=True, text=True).stdout
  assert diff
  open(d + '/patch.diff', 'w').write(diff)
  json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, open(d + '/meta.json', 'w'), indent=1)
finally:
  subprocess.run(['git', '-C', '/repo', 'checkout', '-q', '--', '.'])
