"""Writes DESIGN.md from design_head.md, the INFO of every check, and design_tail.md."""
import importlib, json, os, sys, textwrap
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
os.environ.setdefault('JAX_PLATFORMS', 'cpu')
from sx import env
env.setup()
T = os.path.join(V, 'tools')
out = [open(os.path.join(T, 'design_head.md')).read().rstrip(), '', '## 2. Properties', '']
cost = json.load(open(os.path.join(T, 'cost.json')))
for l in open(os.path.join(V, 'properties.jsonl')):
  p = json.loads(l)
  i = p['id']
  m = importlib.import_module('props.' + i.lower())
  I = m.INFO
  w = lambda k, s: out.extend(textwrap.wrap(f'- **{k}**: {s}', 98, subsequent_indent='  ', break_long_words=False))
  out.append(f"### {i} {p['title']}\n")
  w('Decided', I['explanation'])
  w('Code executed symbolically', ', '.join(I['functions']))
  w('Bounds', I['bounds'])
  w('Outside', I['outside'])
  if I.get('assumptions'):
    w('Assumptions', '; '.join(I['assumptions']))
  if i in cost:
    w('Cost (8 cores)', cost[i])
  out.append('')
out.append(open(os.path.join(T, 'design_tail.md')).read().rstrip())
open(os.path.join(V, 'DESIGN.md'), 'w').write('\n'.join(out) + '\n')
