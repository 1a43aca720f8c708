"""Writes properties.jsonl and MANIFEST.json from wodlint/props.py."""
import json
import os
import sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
from wodlint import props  # noqa: E402

PKG = 'src/waymo_open_dataset/'
TECH = {'p01': 'schema comparison of protoc-resolved descriptors', 'p02': 'cross-language interface query (registrations, kernels, wrappers)'}


def files(p):
  if p.get('files'):
    return p['files']
  out = [PKG + f for f in p.get('cxx', ())] + [PKG + f for f, _ in p.get('cxx_extra', ())]
  for m in p.get('py', ()):
    q = PKG + m.replace('.', '/')
    out.append(q + '/__init__.py' if os.path.isdir('/repo/' + q) else q + '.py')
  for q in p.get('py_extra', ()):
    out.append(PKG + q.rsplit('.', 1)[0].replace('.', '/') + '.py')
  return sorted(set(out))


def row(p):
  return {'id': p['id'], 'title': p['title'], 'statement': p['statement'],
          'quantifier': {'over': p['over'], 'text': p['text']}, 'why_tests_cant': p['why'],
          'anchors': {'files': files(p), 'mechanism': [{'name': a, 'where': b} for a, b in p['mech']]}}


def main():
  with open(ROOT + '/properties.jsonl', 'w') as fh:
    for p in props.PROPS + props.DECLINED:
      fh.write(json.dumps(row(p)) + '\n')
  checks = []
  for p in props.PROPS:
    tech = []
    if p.get('special'):
      tech.append(TECH[p['special']])
    if os.path.exists(ROOT + '/specs/%s.json' % p['id']):
      tech.append('value-flow contracts: abstract interpretation of the resolved source to a canonical effect summary, compared with the reviewed contract')
    checks.append({
        'property': p['id'], 'quick_cmd': './check ' + p['id'], 'thorough_cmd': './check %s' % p['id'],
        'technique': '; '.join(tech), 'level': 'other',
        'level_note': p.get('note') or (
            'Static, all inputs: every observable sink of every entry (return, store, append, check, error, outgoing call) '
            'receives the contract\'s value under the contract\'s condition, helpers expanded, library calls uninterpreted. '
            'Trusts the reviewed contract as the meaning of the property, the analyser\'s summaries of loops and of '
            'library calls, and protoc/clang/ast resolution; numeric results of library calls are not decided.'
            if not p.get('special') == 'p01' else
            'Complete over the resolved schema: every published message, field and enumerator is compared. Trusts protoc and the recorded schema.')})
  man = {'version': 1, 'setup_cmd': 'python3-vt -m wodlint.setup', 'checks': checks,
         'not_applicable': [{'property': p['id'], 'reason': p['reason']} for p in props.DECLINED],
         'notes': 'Static analysis only; see DESIGN.md. ./check <id> analyses /repo\'s working tree (WODLINT_REPO overrides the path). Exit 3 means the analysis could not give a verdict.'}
  with open(ROOT + '/MANIFEST.json', 'w') as fh:
    json.dump(man, fh, indent=1)
    fh.write('\n')


if __name__ == '__main__':
  main()
