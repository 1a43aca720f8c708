"""refeach.py [--only=prefix,..] [--jobs=n] FILE...: every refactoring on its own, only the entries of the edited files."""
import glob, json, os, re, shutil, subprocess, sys
from concurrent.futures import ThreadPoolExecutor
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
src = open(root + '/tools/refac.py').read().rsplit('\nmain()', 1)[0]
ns = {'__file__': root + '/tools/refac.py', '__name__': 'x'}
exec(compile(src, 'refac', 'exec'), ns)
W = '/tmp/rfe'
only = [a[7:].split(',') for a in sys.argv if a.startswith('--only=')]
jobs = ([int(a[7:]) for a in sys.argv if a.startswith('--jobs=')] or [7])[0]
files = [a for a in sys.argv[1:] if not a.startswith('--')] or sorted(glob.glob(root + '/refactorings/*.txt'))


def one(x):
  rid, edits = x
  t = ns['apply']({}, edits)
  if t is None:
    return rid, 'BAD EDIT'
  d = W + '/' + re.sub(r'\W', '_', rid)
  shutil.rmtree(d, ignore_errors=True)
  os.makedirs(d + '/cache')
  subprocess.check_call(['cp', '-as', '/repo/src', d + '/src'])
  for f, text in t.items():
    p = d + '/src/waymo_open_dataset/' + f
    os.remove(p)
    open(p, 'w').write(text)
  for c in glob.glob(root + '/.cache/*'):
    if os.path.basename(c).startswith('exporter'):
      os.symlink(c, d + '/cache/' + os.path.basename(c))
  env = dict(os.environ, WODLINT_REPO=d, WODLINT_CACHE=d + '/cache', PYTHONPATH=root, WODLINT_TUCACHE=W + '/tu')
  r = subprocess.run(['python3-vt', root + '/tools/compare.py', '--files=' + ','.join(t)], env=env, cwd=root, capture_output=True, text=True)
  out = r.stdout + r.stderr[-600:]
  if 'ALARM' not in out and r.returncode == 0:
    shutil.rmtree(d, ignore_errors=True)
  return rid, out


os.makedirs(W + '/tu', exist_ok=True)
todo = [x for x in ns['load'](files) if not only or any(x[0].startswith(p) for p in only[0])]
bad = 0
with ThreadPoolExecutor(jobs) as ex:
  for rid, out in ex.map(one, todo):
    lines = [l for l in out.split('\n') if l.strip()]
    if any(l.startswith(('ALARM', 'BAD', 'Trace')) or 'rror' in l for l in lines):
      bad += 1
      print('###', rid)
      print('\n'.join(lines))
print('%d refactorings, %d not quiet' % (len(todo), bad))
