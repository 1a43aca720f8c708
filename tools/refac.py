"""refac.py [--only=id,...] [--full] [FILE...]: apply behaviour-preserving edits in scratch copies and run every contract.

Each refactorings/*.txt holds edits:
  ### id
  @path below src/waymo_open_dataset
  OLD
  ===>
  NEW
  ----
  (further edits of the same refactoring)
A path written @*path replaces every occurrence of the word OLD.
Edits that touch different text share a scratch tree; the contracts must stay as specified.
--build also builds and runs the C++ and stable tests with the edits applied to /repo (undone afterwards).
"""
import glob
import json
import os
import re
import shutil
import subprocess
import sys
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = '/tmp/rf'


def load(files):
  out = []
  for f in files:
    for part in open(f).read().split('\n### ')[0:]:
      part = part[4:] if part.startswith('### ') else part
      if not part.strip():
        continue
      rid, body = part.split('\n', 1)
      edits, cur = [], None
      for e in (body.rstrip('\n') + '\n').split('\n----\n'):
        if not e.strip():
          continue
        if e.startswith('@'):
          cur, e = e[1:].split('\n', 1)
        old, new = (e.split('\n===>\n') if '\n===>\n' in e else (e.split('\n===>')[0], ''))
        edits.append((cur, old, new.rstrip('\n')))
      out.append((rid.strip(), edits))
  return out


def apply(tree, edits):
  new = dict(tree)
  for f, o, n in edits:
    every, f = f.startswith('*'), f.lstrip('*')
    if f not in new:
      new[f] = open('/repo/src/waymo_open_dataset/' + f).read()
    if every and re.search(r'\b%s\b' % o, new[f]):
      new[f] = re.sub(r'\b%s\b' % o, n, new[f])
      continue
    if new[f].count(o) != 1:
      return None
    new[f] = new[f].replace(o, n)
  return new


def main():
  only = [a[7:].split(',') for a in sys.argv if a.startswith('--only=')]
  files = [a for a in sys.argv[1:] if not a.startswith('--')] or sorted(glob.glob(root + '/refactorings/*.txt'))
  todo = [x for x in load(files) if not only or any(x[0].startswith(p) for p in only[0])]
  n = 0
  while todo:
    tree, used, rest = {}, [], []
    for rid, edits in todo:
      t = apply({}, edits)
      if t is None:
        print('BAD EDIT', rid, [o for f, o, _ in edits if apply({}, [(f, o, '')]) is None][:1])
        continue
      t = apply(tree, edits)
      if t is None:
        rest.append((rid, edits))
      else:
        tree, used = t, used + [rid]
    todo = rest
    if not used:
      break
    n += 1
    d = '%s/%d' % (W, n)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    subprocess.check_call(['cp', '-a', '/repo/src', d + '/src'])
    for f, text in tree.items():
      open(d + '/src/waymo_open_dataset/' + f, 'w').write(text)
    print('== batch %d: %d edits: %s' % (n, len(used), ' '.join(used)))
    if '--build' in sys.argv:
      try:
        for f, text in tree.items():
          open('/repo/src/waymo_open_dataset/' + f, 'w').write(text)
        r = subprocess.run(['bash', '/opt/vp/build.sh'], capture_output=True, text=True)
        print('build', r.returncode, (r.stdout + r.stderr)[-1500:] if r.returncode else '')
        if not r.returncode:
          for sh in ('test.sh', 'test_cc.sh'):
            subprocess.run(['bash', '/opt/vp/' + sh, W + '/out.json'], capture_output=True)
            o = json.load(open(W + '/out.json'))
            print(sh, {k: (len(v) if len(v) > 12 else v) for k, v in o.items() if isinstance(v, (list, dict))})
      finally:
        subprocess.run(['git', '-C', '/repo', 'checkout', '-q', '--', '.'])
        subprocess.run(['bash', '/opt/vp/build.sh'], capture_output=True)
    env = dict(os.environ, WODLINT_REPO=d, WODLINT_CACHE='%s/cache%d' % (W, n), PYTHONPATH=root)
    os.makedirs(W + '/cache%d' % n, exist_ok=True)
    for x in glob.glob(root + '/.cache/exporter-*'):
      shutil.copy(x, W + '/cache%d/' % n)
    langs = ({'cxx'} if any(f.endswith(('.cc', '.h')) for f in tree) else set()) | ({'py'} if any(f.endswith('.py') for f in tree) else set())
    subprocess.run(['python3-vt', root + '/tools/compare.py'] + sorted(langs), env=env, cwd=root)


main()
