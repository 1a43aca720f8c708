"""mkdemo.py ID cc|py < source: writes seeded/ID/demo.sh and demo.cc or demo.py."""
import os, sys
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sid, kind = sys.argv[1:3]
d = root + '/seeded/' + sid
os.makedirs(d, exist_ok=True)
open(d + '/demo.' + kind, 'w').write(sys.stdin.read())
if kind == 'py':
  sh = '''#!/bin/bash
# Exit 0 when the behaviour is as specified.
here=$(cd "$(dirname "$0")" && pwd)
export PYTHONPATH=/repo/src PYTHONDONTWRITEBYTECODE=1 PROTOCOL_BUFFERS_PYTHON_IMPLEMENTATION=python
exec /opt/venv/bin/python "$here/demo.py"
'''
else:
  sh = '''#!/bin/bash
# Exit 0 when the behaviour is as specified.  Compiles demo.cc against the built objects.
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d) || exit 9
B=/opt/wod/build; TF=/opt/wod/tf/tensorflow
objs=$(find $B/obj -name '*.o' | grep -v -e _test.o -e _main -e /ops/ -e /tools/ -e /latency/)
g++ -std=c++17 -O1 -pthread -D_GLIBCXX_USE_CXX11_ABI=1 -DEIGEN_MAX_ALIGN_BYTES=64 -I/repo/src -I$B/gen -isystem $TF/include \\
  -isystem /usr/include/android "$here/demo.cc" $objs -L$TF -Wl,-rpath,$TF -l:libtensorflow_framework.so.2 -lglog -lz \\
  -L/usr/lib/x86_64-linux-gnu/android -Wl,-rpath,/usr/lib/x86_64-linux-gnu/android -l:libcrypto.so.0 -lgtest -lgmock -o "$tmp/demo" >"$tmp/log" 2>&1 || { tail -20 "$tmp/log"; rm -rf "$tmp"; exit 8; }
"$tmp/demo"; rc=$?
rm -rf "$tmp"
exit $rc
'''
open(d + '/demo.sh', 'w').write(sh)
