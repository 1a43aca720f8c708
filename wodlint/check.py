"""Driver: python3-vt -m wodlint.check <property> [--dump]

Runs the static rules of one property over /repo's current source, writes
evidence/<property>.json and reports VIOLATION / KNOWN-FINDING lines.
Exit 0: every obligation discharged (or listed as a known finding);
exit 1: a violation; exit 3: the analysis itself could not give a verdict.
"""
import importlib
import json
import os
import sys
import time
import traceback

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)

from wodlint import contract, props  # noqa: E402
from wodlint.cxxload import Broken  # noqa: E402

EXPLAIN = (
    'Value-flow contracts.  For every entry (public function, method, kernel or declaration behind the property) an '
    'abstract interpreter computes from the current source, with every helper expanded and no execution, a canonical '
    'summary: which value, under which condition, reaches each return, field store, append, argument check, raised '
    'error and outgoing call.  One obligation per specified sink: its value and guard equal the specified ones; and no '
    'other sink exists.  ')


class Ctx(object):

  def __init__(self, prop, tier):
    self.prop = prop
    self.tier = tier
    self.obligations = []   # (rule, construct, ok, message, where)
    self.counts = {}
    self.samples = []
    self.assumptions = []
    self.minimum = 1
    self.explanation = ''

  def ob(self, rule, construct, ok, message='', where=''):
    self.obligations.append((rule, construct, bool(ok), message, where))
    return bool(ok)

  def count(self, name, n=1):
    self.counts[name] = self.counts.get(name, 0) + n

  def set(self, name, n):
    self.counts[name] = n

  def need(self, n):
    """Fewer obligations than confirmed by hand: the anchors moved."""
    self.minimum = n


def known_findings():
  path = ROOT + '/KNOWN_FINDINGS.json'
  if not os.path.exists(path):
    return []
  with open(path) as fh:
    return [e for e in json.load(fh)['findings'] if e['status'] == 'open']


def main(argv):
  prop = argv[0]
  tier = os.environ.get('VERIF_TIER', 'quick')
  if tier not in ('quick', 'thorough'):
    tier = 'quick'
  seed = int(os.environ.get('VERIF_SEED', '1') or 1)
  t0 = time.time()
  ctx = Ctx(prop, tier)
  os.makedirs(ROOT + '/evidence', exist_ok=True)
  try:
    p = props.BY_ID[prop]
    if p.get('special'):
      importlib.import_module('wodlint.rules.' + p['special']).check(ctx)
    least = ctx.minimum
    if os.path.exists(contract.spec_path(prop)):
      contract.verify(ctx, prop)
      ctx.need(least + ctx.minimum if p.get('special') else ctx.minimum)
      ctx.explanation = EXPLAIN + ctx.explanation
  except Broken as e:
    print('ANALYSIS-BROKEN property=%s %s' % (prop, e))
    return 3
  except Exception:
    traceback.print_exc()
    print('ANALYSIS-BROKEN property=%s internal error' % prop)
    return 3
  known = {(e['rule'], e['construct']): e for e in known_findings() if e['property'] == prop}
  bad, found, seen = [], [], set()
  for rule, construct, ok, msg, where in ctx.obligations:
    if ok:
      continue
    if (rule, construct) in seen:
      continue
    seen.add((rule, construct))
    e = known.get((rule, construct))
    (found if e else bad).append((rule, construct, msg, where, e))
  n = len(ctx.obligations)
  if n < ctx.minimum and not bad:
    print('ANALYSIS-BROKEN property=%s only %d obligations were found, at least %d expected' % (prop, n, ctx.minimum))
    return 3
  rules = {}
  for o in ctx.obligations:
    rules[o[0]] = rules.get(o[0], 0) + 1
  step = max(1, n // 6)
  ev = {
      'property': prop, 'tier': tier, 'seed': seed, 'level': 'other',
      'coverage': {
          'explanation': ctx.explanation,
          'obligations': n,
          'discharged': sum(1 for o in ctx.obligations if o[2]),
          'rules': rules,
          'analysed': ctx.counts,
          'samples': ['%s: %s %s' % (o[0], o[1], ('[' + o[4] + ']') if o[4] else '') for o in ctx.obligations[::step]][:8] + ctx.samples[:8],
      },
      'assumptions': ctx.assumptions,
      'wall_s': round(time.time() - t0, 2),
      'violations': len(bad),
  }
  with open('%s/evidence/%s.json' % (ROOT, prop), 'w') as fh:
    json.dump(ev, fh, indent=1)
  for rule, construct, msg, where, e in found:
    print('KNOWN-FINDING: property=%s %s' % (prop, e['what']))
  rep = '%s/evidence/%s.violations.txt' % (ROOT, prop)
  if bad:
    with open(rep, 'w') as fh:
      for rule, construct, msg, where, _ in bad:
        fh.write('rule: %s\nconstruct: %s\nwhere: %s\n%s\n\n' % (rule, construct, where, msg))
    for rule, construct, msg, where, _ in bad[:20]:
      print('%s: [%s] %s: %s' % (where or '?', rule, construct, msg[:1500]))
    print('VIOLATION property=%s replay=%s' % (prop, rep))
    return 1
  if os.path.exists(rep):
    os.remove(rep)
  print('property=%s held: %d obligations discharged, %d known findings (%.1f s)' % (prop, n - len(found), len(found), time.time() - t0))
  return 0


if __name__ == '__main__':
  sys.exit(main(sys.argv[1:]))
