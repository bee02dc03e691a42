"""python -m sx.cli PROPERTY [--tier quick|thorough] [--case NAME] [--replay FILE] [--list]"""
import argparse
import importlib
import json
import multiprocessing as mp
import os
import sys
import time

from . import env

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
KNOWN = os.path.join(VERIF, 'known_findings.json')

_MOD = None
_CASES = None


def load(prop, tier):
  env.setup()
  mod = importlib.import_module(f'props.{prop.lower()}')
  return mod, mod.cases(tier)


def _init(prop, tier):
  global _MOD, _CASES
  devnull = os.open(os.devnull, os.O_WRONLY)
  if not os.environ.get('SX_DEBUG'):
    os.dup2(devnull, 2)
  _MOD, _CASES = load(prop, tier)


def _work(args):
  prop, name, seed, outdir = args
  from . import harness
  try:
    builder = dict(_CASES)[name]
    c = builder()
    if isinstance(c, harness.Case):
      c.name = name
      r = harness.run_case(c, seed, outdir, prop)
    else:  # custom decision procedure
      r = c(name, seed, outdir)
    return r.as_dict()
  except Exception as e:  # construction of the case failed
    import traceback
    r = harness.Result(name)
    r.status = 'inconclusive'
    r.detail = traceback.format_exc()[-1500:]
    # Building a case runs the real code on documented arguments (for example
    # a module's init); an exception raised inside it is a violation.
    tb, inside = e.__traceback__, False
    while tb is not None:
      inside = inside or tb.tb_frame.f_code.co_filename.startswith(os.path.join(env.REPO, ''))
      tb = tb.tb_next
    if inside and not isinstance(e, (MemoryError, OSError)):
      r.status = 'violation'
      r.detail = f'{type(e).__name__} raised by the code: {e}'[:500]
      os.makedirs(outdir, exist_ok=True)
      fn = ''.join(ch if ch.isalnum() or ch in '-_.' else '_' for ch in name)[:100]
      r.replay = os.path.join(outdir, f'{prop}-{fn}.json')
      with open(r.replay, 'w') as f:
        json.dump(dict(property=prop, case=name, traceback=traceback.format_exc()), f, indent=1)
    return r.as_dict()


def known_findings(prop):
  try:
    with open(KNOWN) as f:
      return [k for k in json.load(f)['findings'] if k['property'] == prop]
  except FileNotFoundError:
    return []


def main():
  ap = argparse.ArgumentParser()
  ap.add_argument('prop')
  ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
  ap.add_argument('--case')
  ap.add_argument('--replay')
  ap.add_argument('--list', action='store_true')
  ap.add_argument('--jobs', type=int, default=8)
  ap.add_argument('--serial', action='store_true')
  ap.add_argument('-v', action='store_true')
  a = ap.parse_args()
  tier = a.tier if a.tier in ('quick', 'thorough') else 'quick'
  seed = int(os.environ.get('VERIF_SEED', '1'))
  t0 = time.time()
  sys.path.insert(0, VERIF)
  if a.replay:
    sys.exit(replay(a.prop, tier, a.replay))
  outdir = os.path.join(VERIF, 'evidence', 'replay')
  # enumerate cases in a child-free way (cheap: builders are lazy)
  mod, cases = load(a.prop, tier)
  names = [n for n, _ in cases]
  assert len(set(names)) == len(names), 'duplicate case names'
  if a.list:
    print('\n'.join(names))
    return
  if a.case:
    names = [n for n in names if a.case in n]
  budget = float(os.environ.get('SX_BUDGET', 840 if tier == 'quick' else 6 * 3600))
  results = []
  jobs = [(a.prop, n, seed, outdir) for n in names]
  if a.serial or len(jobs) == 1:
    global _MOD, _CASES
    _MOD, _CASES = mod, cases
    for j in jobs:
      r = _work(j)
      results.append(r)
      if a.v:
        show(r)
  else:
    ctxm = mp.get_context('spawn')
    pool = ctxm.Pool(min(a.jobs, len(jobs)), _init, (a.prop, tier))
    it = pool.imap_unordered(_work, jobs, chunksize=1)
    got = set()
    try:
      for _ in jobs:
        r = it.next(timeout=max(1.0, budget - (time.time() - t0)))
        got.add(r['name'])
        results.append(r)
        if a.v:
          show(r)
        if r['status'] == 'violation' and not a.v and not any(
            k.get('status') == 'open' and k['case'] == r['name'] for k in known_findings(a.prop)):
          break  # one confirmed violation decides the run
    except mp.TimeoutError:
      for n in names:
        if n not in got:
          results.append(dict(name=n, status='inconclusive', detail='time budget exhausted',
                              claims=0, scalars=0, nontrivial=0, symbols=0, terms=0, wall=0,
                              stats={}, prims={}, eqns=0, replay=None))
    pool.terminate()
    pool.join()
  code = report(a.prop, tier, seed, mod, results, time.time() - t0, partial=bool(a.case))
  sys.stdout.flush()
  os._exit(code)


def show(r):
  print(f"  {r['status']:12s} {r['name']}  claims={r['claims']} scalars={r['scalars']}"
        f" sym={r['symbols']} terms={r['terms']} eqns={r['eqns']} q={r['stats'].get('queries')}"
        f" {r['wall']:.1f}s {r['detail'][-250:] if r['detail'] else ''}", flush=True)


def report(prop, tier, seed, mod, results, wall, partial=False):
  kf = known_findings(prop)
  viol, inc = [], []
  known_hit = []
  for r in results:
    if r['status'] == 'violation':
      k = next((k for k in kf if k.get('status') == 'open' and k['case'] == r['name']), None)
      if k is not None:
        known_hit.append((k, r))
      else:
        viol.append(r)
    elif r['status'] == 'inconclusive':
      inc.append(r)
  st = dict(queries=0, unsat=0, sat=0, unknown=0, time=0.0, icp=0, icp_boxes=0)
  prims = {}
  for r in results:
    for k in st:
      st[k] += r['stats'].get(k, 0)
    for k, v in r['prims'].items():
      prims[k] = prims.get(k, 0) + v
  info = getattr(mod, 'INFO', {})
  ev = dict(
      property=prop, tier=tier, seed=seed, level='other',
      coverage=dict(
          explanation=info.get('explanation', ''),
          functions_encoded=info.get('functions', []),
          bounds=info.get('bounds', ''),
          outside=info.get('outside', ''),
          obligations=len(results),
          discharged=sum(r['status'] == 'ok' for r in results),
          inconclusive=[f"{r['name']}: {r['detail'][:200]}" for r in inc],
          claims=sum(r['claims'] for r in results),
          scalar_assertions=sum(r['scalars'] for r in results),
          symbolic_scalar_assertions=sum(r['nontrivial'] for r in results),
          symbolic_inputs=sum(r['symbols'] for r in results),
          jaxpr_equations=sum(r['eqns'] for r in results),
          primitive_executions=sum(prims.values()),
          normal_form_terms=sum(r['terms'] for r in results),
          solver='z3 (python bindings)',
          solver_queries=st['queries'], solver_unsat=st['unsat'],
          solver_sat=st['sat'], solver_unknown=st['unknown'],
          solver_time_s=round(st['time'], 3),
          interval_queries=st['icp'], interval_boxes=st['icp_boxes'],
          checker_cmd=f'bash run.sh {prop}',
          trusted_base=['jax tracing (make_jaxpr)', 'sx.interp jaxpr semantics over the reals',
                        'sx.poly normal forms', 'z3',
                        'sx.icp interval branch-and-bound (transcendental queries)'],
          samples=[dict(case=r['name'], symbols=r['symbols'], scalar_assertions=r['scalars'],
                        terms=r['terms'], queries=r['stats'].get('queries'), wall_s=round(r['wall'], 2))
                   for r in sorted(results, key=lambda r: -r['wall'])[:12]],
      ),
      assumptions=info.get('assumptions', []),
      wall_s=round(wall, 2), violations=len(viol))
  os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
  with open(os.path.join(VERIF, 'evidence', f'{prop}.json'), 'w') as f:
    json.dump(ev, f, indent=1)
  for k, r in known_hit:
    print(f"KNOWN-FINDING: property={prop} {k['what']}")
  print(f'{prop} [{tier}]: {len(results)} obligations, '
        f'{ev["coverage"]["discharged"]} discharged, {len(viol)} violated, {len(inc)} inconclusive; '
        f'{st["queries"]} queries, {st["time"]:.1f}s solver, {wall:.1f}s wall')
  for r in inc:
    print(f"INCONCLUSIVE {r['name']}: {r['detail'][-600:]}")
  for r in viol:
    print(f"  {r['name']}: {r['detail']}")
  if viol:
    print(f"VIOLATION property={prop} replay={viol[0]['replay']}")
    return 1
  # undecided obligations are not part of what was explored; without a clear
  # majority of decided ones the run has no answer
  if inc and ev['coverage']['discharged'] < 0.6 * len(results):
    return 2
  return 0


def replay(prop, tier, path):
  """Re-run one stored counterexample on the real code."""
  import numpy as np
  mod, cases = load(prop, tier)
  with open(path) as f:
    d = json.load(f)
  import jax
  import jax.numpy as jnp
  from . import harness
  jax.config.update('jax_enable_x64', d['x64'])
  c = dict(cases)[d['case']]()
  if not isinstance(c, harness.Case):
    print(json.dumps(d, indent=1))
    return 1
  for s in c.inputs.values():
    if isinstance(s, (harness.Real, harness.UnitVec, harness.Angle, harness.Quat)):
      s.dtype = harness.fdtype()
  conc = {k: jnp.asarray(np.asarray(v), dtype=c.inputs[k].dtype) for k, v in d['inputs'].items()}
  fails = harness._replay(c, conc)
  for f in fails:
    print('FAILS', f[1])
  return 1 if fails else 0


if __name__ == '__main__':
  main()
