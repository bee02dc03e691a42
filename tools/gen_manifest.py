"""Writes MANIFEST.json from the implemented property modules."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [json.loads(l)['id'] for l in open(os.path.join(V, 'properties.jsonl'))]
NA = {}
JAXPR = 'symbolic execution of the traced jaxpr of the real code to normal forms, decided with z3 (SMT) and interval branch-and-prune; counterexamples replayed on the real code'
PATHS = 'symbolic execution of the real Python code with path forking, decided with z3 (SMT); counterexamples replayed on the real code'
BOXES = 'symbolic (interval) execution of the traced float32 jaxpr under IEEE exception semantics, decided for all inputs by a branch-and-prune constraint solver; counterexamples replayed on the real code'
TECHNIQUE = dict(C08=JAXPR + '; index code executed symbolically with path forking', C19=BOXES, C21=PATHS, C23=PATHS)
try:
  NA.update(json.load(open(os.path.join(V, 'tools', 'na.json'))))
except FileNotFoundError:
  pass
checks = []
na = []
for i in ids:
  f = os.path.join(V, 'props', i.lower() + '.py')
  if os.path.exists(f) and i not in NA:
    checks.append(dict(
        property=i, quick_cmd=f'VERIF_TIER=quick bash run.sh {i}',
        thorough_cmd=f'VERIF_TIER=thorough bash run.sh {i} --tier thorough',
        evidence_file=f'evidence/{i}.json',
        technique=TECHNIQUE.get(i, JAXPR),
        level='other',
        level_note='Solver-based, for all values within the bounds stated in the evidence and DESIGN.md; arithmetic over the reals with a tolerance (not bit-exact IEEE); trusts jax tracing, the jaxpr interpreter sx.interp and z3.'))
  else:
    na.append(dict(property=i, reason=NA.get(i, 'Check not built yet.')))
m = dict(version=1, setup_cmd='bash setup.sh', checks=checks, not_applicable=na,
         notes='No hooks in /repo. See DESIGN.md.')
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks;', len(na), 'not applicable')
