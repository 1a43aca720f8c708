"""Builds the exporter, regenerates the protos and loads the resolved C++ program."""
import concurrent.futures as cf
import fcntl
import hashlib
import json
import os
import subprocess
import tempfile

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('WODLINT_REPO', '/repo')
SRC = REPO + '/src'
PKG = SRC + '/waymo_open_dataset'
CACHE = os.environ.get('WODLINT_CACHE') or os.path.join(os.path.dirname(HERE), '.cache')
TF = '/opt/wod/tf/tensorflow/include'


class Broken(Exception):
  """The analysis itself cannot give a verdict (an error exit, never a pass)."""


def _run(cmd, **kw):
  r = subprocess.run(cmd, capture_output=True, text=True, **kw)
  if r.returncode:
    raise Broken('%s\n%s' % (' '.join(cmd)[:300], (r.stderr or r.stdout)[-3000:]))
  return r.stdout


def digest(paths, below=''):
  h = hashlib.sha256()
  for q in sorted(paths):
    h.update((os.path.relpath(q, below) if below else q).encode() + b'\0')
    with open(q, 'rb') as fh:
      h.update(fh.read())
    h.update(b'\0')
  return h.hexdigest()[:20]


def repo_files(*exts):
  out = []
  for d, dirs, fs in os.walk(PKG):
    dirs.sort()
    for x in sorted(fs):
      if x.endswith(exts):
        out.append(os.path.join(d, x))
  return out


class _lock(object):

  def __enter__(self):
    os.makedirs(CACHE, exist_ok=True)
    self.fh = open(CACHE + '/lock', 'w')
    fcntl.flock(self.fh, fcntl.LOCK_EX)

  def __exit__(self, *a):
    self.fh.close()


def exporter():
  src = HERE + '/cxx/exporter.cc'
  out = '%s/exporter-%s' % (CACHE, digest([src]))
  if not os.path.exists(out):
    tmp = out + '.tmp%d' % os.getpid()
    _run(['g++', '-std=c++17', '-O1', '-fno-rtti', '-w', '-I/usr/lib/llvm-18/include', src,
          '-o', tmp, '-L/usr/lib/llvm-18/lib', '-l:libclang-cpp.so.18.1', '-l:libLLVM-18.so'])
    os.rename(tmp, out)
  return out


def protos():
  return repo_files('.proto')


def descriptor_set():
  """FileDescriptorSet bytes of every .proto in the repository."""
  ps = [os.path.relpath(x, SRC) for x in protos()]
  with tempfile.TemporaryDirectory() as d:
    _run(['/usr/bin/protoc', '-I' + SRC, '--include_imports', '--descriptor_set_out=' + d + '/x'] + ps)
    with open(d + '/x', 'rb') as fh:
      return fh.read()


def sources():
  return [x for x in repo_files('.cc') if not x.endswith('_test.cc') and '/test' not in x[len(PKG):]]


def program_json():
  """All functions/records/enums/globals of the repository's own C++ code."""
  with _lock():
    exe = exporter()
    key = digest(repo_files('.cc', '.h', '.proto') + [HERE + '/cxx/exporter.cc'])
    cached = '%s/prog-%s.json' % (CACHE, key)
    if os.path.exists(cached):
      with open(cached) as fh:
        return json.load(fh)
    with tempfile.TemporaryDirectory() as d:
      ps = [os.path.relpath(x, SRC) for x in protos()]
      os.mkdir(d + '/gen')
      _run(['/usr/bin/protoc', '-I' + SRC, '--cpp_out=' + d + '/gen'] + ps)
      flags = ['-std=c++17', '-DNDEBUG', '-fPIC', '-pthread', '-D_GLIBCXX_USE_CXX11_ABI=1',
               '-DEIGEN_MAX_ALIGN_BYTES=64', '-I' + SRC, '-I' + d + '/gen', '-isystem', TF,
               '-isystem', '/usr/include/android', '-w', '-resource-dir',
               '/usr/lib/llvm-18/lib/clang/18']
      srcs = sources()

      def one(k):
        out = '%s/%d.json' % (d, k)
        shared = os.environ.get('WODLINT_TUCACHE')  # development: units of an earlier run
        if shared:
          sig = digest([srcs[k]] + repo_files('.h', '.proto') + [HERE + '/cxx/exporter.cc'], SRC)
          out = shared + '/' + sig
          if os.path.exists(out):
            with open(out) as fh:
              return json.load(fh)
          out += '.%d' % os.getpid()
        r = subprocess.run([exe, out, SRC + '/', srcs[k], '--'] + flags, capture_output=True, text=True)
        if r.returncode:
          raise Broken('cannot analyse %s:\n%s' % (srcs[k], r.stderr[-3000:]))
        if shared:
          os.rename(out, shared + '/' + sig)
          out = shared + '/' + sig
        with open(out) as fh:
          return json.load(fh)
      with cf.ThreadPoolExecutor(8) as ex:
        tus = list(ex.map(one, range(len(srcs))))
    # every TU numbers its declarations from 1: make the numbers global
    prog = {'functions': [], 'records': {}, 'enums': {}, 'globals': {}, 'units': [os.path.relpath(s, SRC) for s in srcs]}
    seen = set()
    for k, tu in enumerate(tus):
      for fn in tu['functions']:
        sig = (fn['name'], fn['file'], fn['line'], fn.get('inst') and json.dumps(fn['params']) + fn['ret'])
        if sig in seen:
          continue
        seen.add(sig)
        fn['tu'] = k
        prog['functions'].append(fn)
      for r in tu['records']:
        prog['records'][r['name']] = r
      for e in tu['enums']:
        prog['enums'][e['name']] = e['values']
      for g in tu['globals']:
        g['tu'] = k
        prog['globals'].setdefault(g['name'] + '@' + g['file'], g)
    tmp = cached + '.tmp'
    for old in os.listdir(CACHE):
      if old.startswith('prog-'):
        os.remove(CACHE + '/' + old)
    with open(tmp, 'w') as fh:
      json.dump(prog, fh)
    os.rename(tmp, cached)
    return prog


if __name__ == '__main__':
  import time
  t = time.time()
  pr = program_json()
  print(len(pr['functions']), 'functions', len(pr['units']), 'units', len(pr['records']), 'records', round(time.time() - t, 1), 's')
