"""The check of one property: obligations from the current source, their discharge, the concrete
search when an obligation fails, the evidence."""
import hashlib, importlib, json, os, subprocess, sys, time, traceback
import multiprocessing as mp
from concurrent.futures import ProcessPoolExecutor, as_completed
from z3 import *
from . import run as R, verify as V, theory, solve
from .ctypes_ import Break
from .props import PROPS

VERIF = R.VERIF


def load(prop, data):
    """The engine with all contracts of the modules of a property."""
    P = PROPS[prop]
    mods = [importlib.import_module('ccv.specs.' + m) for m in P['specs']]
    cs = {}
    for m in mods:
        for c in m.contracts():
            cs[c.name] = c
    E = R.engine(data, list(cs.values()), prop)
    E.safety = bool(P.get('safety'))
    for m in mods:
        if hasattr(m, 'prepare'):
            m.prepare(E)
    return E, mods


def wanted(P, name):
    return any(name == w or (w.endswith('*') and name.startswith(w[:-1])) for w in P['verify'])


DATA = None


def job(a):
    """Verifies one function against its contract (in a worker process)."""
    prop, cname, fid, tier = a
    t0 = time.time()
    out = dict(contract=cname, function=None, loc='', obligations=[], broke=None, used=[], inlined=[], models=[], loops=[], vac=None)
    try:
        E, _ = load(prop, DATA)
        c = E.contracts[cname]
        f = E.fns[fid]
        out['function'] = E.key(f)[1][:160]
        out['loc'] = f['loc'].replace(R.REPO + '/', '')
        obs = V.verify(E, f, c)
        out['gen_s'] = time.time() - t0
        R.discharge(E, obs, (0, 1, 2) if tier == 'quick' else (0, 1, 2, 3))
        for o in obs:
            d = dict(name=o.name, kind=o.kind, loc=o.loc.rsplit('/', 1)[-1], status=o.status, backend=getattr(o, 'backend', ''), s=getattr(o, 'seconds', 0.0))
            if o.status != 'proved':
                d['detail'] = describe(o)
            out['obligations'].append(d)
        # vacuity: the preconditions must be satisfiable as far as the solver can tell
        for nm, pc in E.vacuity[-1:]:
            r = E.prover.prove_many([(pc, BoolVal(False))], effort=0)[0]
            out['vac'] = (r[0] != 'proved')
        out['used'] = sorted(E.used_contracts)
        out['assumed'] = sorted(u for u in E.used_contracts if E.contracts[u].trusted)
        out['inlined'] = sorted(E.inlined)
        out['models'] = sorted(E.assumed_models)
        out['loops'] = E.loopinfo
        out['solver_s'] = E.prover.stats['seconds']
        out['queries'] = E.prover.stats['queries']
        E.prover.close()
    except Break as b:
        out['broke'] = str(b)[:1500]
    except Exception:
        out['broke'] = traceback.format_exc()[-1500:]
    out['wall'] = time.time() - t0
    return out


def lemma_job(a):
    prop, mod, name, tier = a
    t0 = time.time()
    out = dict(contract='lemma ' + name, function='lemma ' + name, loc='ccv/specs/%s.py' % mod, obligations=[], broke=None, used=[], inlined=[], models=[], loops=[], vac=None)
    try:
        E, _ = load(prop, DATA)
        m = importlib.import_module('ccv.specs.' + mod)
        E.cur = name
        n0 = len(E.obs)
        for ln, fn, tags in m.lemmas():
            if ln == name:
                fn(E)
        obs = E.obs[n0:]
        out['gen_s'] = time.time() - t0
        R.discharge(E, obs, (0, 1, 2) if tier == 'quick' else (0, 1, 2, 3))
        for o in obs:
            d = dict(name=o.name, kind=o.kind, loc=o.loc.rsplit('/', 1)[-1], status=o.status, backend=getattr(o, 'backend', ''), s=getattr(o, 'seconds', 0.0))
            if o.status != 'proved':
                d['detail'] = describe(o)
            out['obligations'].append(d)
        r = E.prover.prove_many([(o.facts, BoolVal(False)) for o in obs], effort=0)
        out['vac'] = not any(x[0] == 'proved' for x in r)
        out['used'] = sorted(E.used_contracts)
        out['models'] = sorted(E.assumed_models)
        out['solver_s'] = E.prover.stats['seconds']
        out['queries'] = E.prover.stats['queries']
        E.prover.close()
    except Break as b:
        out['broke'] = str(b)[:1500]
    except Exception:
        out['broke'] = traceback.format_exc()[-1500:]
    out['wall'] = time.time() - t0
    return out


def describe(o):
    g = str(o.goal)
    return dict(goal=g[:1500], hypotheses=len(o.facts))


def prove(prop, tier, log):
    """All obligations of a property. Returns (list of results, break message or None)."""
    global DATA
    P = PROPS[prop]
    try:
        DATA = R.extract()
    except (Break, subprocess.SubprocessError, ValueError) as b:
        return [], 'extraction: ' + str(b)[-1500:]
    try:
        E, mods = load(prop, DATA)
    except Exception:
        return [], traceback.format_exc()[-1500:]
    todo, seen, missing = [], set(), []
    for c in E.contracts.values():
        if wanted(P, c.name) and not c.trusted:
            fs = R.targets(E, c)
            if not fs and c.name in P['verify']:
                missing.append(c.name)
            for f in fs:
                todo.append((prop, c.name, f['id'], tier))
                seen.add((c.name, f['id']))
    res = []
    nw = int(os.environ.get('CCV_WORKERS', min(8, os.cpu_count() or 4)))
    with ProcessPoolExecutor(nw, mp_context=mp.get_context('fork'), max_tasks_per_child=None) as ex:
        futs = {ex.submit(job, a): a for a in todo}
        for m in mods:
            for ln, fn, tags in (m.lemmas() if hasattr(m, 'lemmas') else []):
                if prop in tags:
                    futs[ex.submit(lemma_job, (prop, m.__name__.rsplit('.', 1)[-1], ln, tier))] = ln
        while futs:
            for fu in as_completed(list(futs)):
                futs.pop(fu)
                try:
                    r = fu.result()
                except Exception as e:
                    r = dict(contract='?', function='?', loc='', obligations=[], broke='worker: %r' % e, used=[], inlined=[], models=[], loops=[], vac=None)
                res.append(r)
                log('  %-58s %3d obligations, %d open%s  %.1fs' % ((r['function'] or r['contract'])[-58:], len(r['obligations']),
                    sum(o['status'] != 'proved' for o in r['obligations']), ' BROKE' if r['broke'] else '', r.get('wall', 0)))
                # contracts relied upon are verified as well
                for u in r['used']:
                    c = E.contracts.get(u)
                    if c is None or c.trusted:
                        continue
                    for f in R.targets(E, c):
                        if (u, f['id']) not in seen:
                            seen.add((u, f['id']))
                            futs[ex.submit(job, (prop, u, f['id'], tier))] = u
                break
    return res, ('no function under the contract of: ' + ', '.join(missing)) if missing else None


def main():
    prop = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if len(sys.argv) > 2:
        tier = sys.argv[2]
    seed = int(os.environ.get('VERIF_SEED', '1'))
    P = PROPS[prop]
    t0 = time.time()
    log = lambda s: (sys.stdout.write(s + '\n'), sys.stdout.flush())
    log('property %s: %s' % (prop, P['title']))
    from .harness import Harness
    H = Harness(P, prop, tier, seed) if P.get('harness') else None
    if H:
        H.start_build()
    res, broke = prove(prop, tier, log)
    t1 = time.time()
    obs = [dict(o, function=r['function'] or r['contract']) for r in res for o in r['obligations']]
    bad = [o for o in obs if o['status'] != 'proved']
    breaks = [(r['function'] or r['contract'], r['broke']) for r in res if r['broke']]
    vac = [r['function'] for r in res if r['vac'] is False]
    if broke:
        breaks.append(('source', broke))
    log('%d obligations, %d discharged; %d functions not within reach; %.1fs' % (len(obs), len(obs) - len(bad), len(breaks), t1 - t0))
    for o in bad:
        log('  open obligation: %s: %s (%s) [%s]' % (o['function'], o['name'], o['loc'], o['status']))
    for f, b in breaks:
        log('  not within reach: %s: %s' % (f, b.strip().splitlines()[-1] if b.strip() else b))
    hres = None
    if H:
        budget = P.get('search', 20) if (bad or breaks) else P.get('smoke', 4)
        if tier == 'thorough':
            budget *= 6
        hres = H.run(budget)
        for l in hres['lines']:
            log('  ' + l)
        if hres['error']:
            log('  search harness: ' + hres['error'][-600:])
    os.makedirs(VERIF + '/evidence', exist_ok=True)
    code, viol = 0, 0
    if hres and hres['failed']:
        path = '%s/evidence/%s.replay' % (VERIF, prop)
        with open(path, 'w') as f:
            f.write('# property %s: failing input found on the real code\n# rerun: %s\n' % (prop, hres['rerun']))
            f.write(hres['failed'] + '\n')
            for o in bad:
                f.write('# failed obligation: %s: %s (%s)\n' % (o['function'], o['name'], o['loc']))
        log('VIOLATION property=%s replay=%s' % (prop, path))
        code, viol = 1, 1
    elif bad or vac:
        path = '%s/evidence/%s.replay' % (VERIF, prop)
        with open(path, 'w') as f:
            f.write('# property %s: obligations not discharged; the search found no failing input\n' % prop)
            for o in bad:
                f.write(json.dumps(o) + '\n')
            for v in vac:
                f.write('contract of %s is vacuous\n' % v)
        log('VIOLATION property=%s replay=%s no-failing-input-found' % (prop, path))
        code, viol = 1, len(bad) + len(vac)
    for k, what in findings(prop):
        log('KNOWN-FINDING: property=%s %s: %s' % (prop, k, what))
    evidence(prop, P, tier, seed, res, obs, bad, breaks, hres, t0, viol, vac)
    sys.exit(code)


def findings(prop):
    """The recorded defects of a property; the contracts exclude exactly these inputs."""
    out = []
    with open(VERIF + '/known-findings.txt') as f:
        for l in f:
            if l.startswith('finding: property=%s ' % prop):
                _, _, k, what = l.strip().split(' ', 3)
                out.append((k, what))
    return out


def evidence(prop, P, tier, seed, res, obs, bad, breaks, hres, t0, viol, vac):
    back = {}
    for o in obs:
        if o['status'] == 'proved':
            back[o['backend']] = back.get(o['backend'], 0) + 1
    kinds = {}
    for o in obs:
        kinds[o['kind']] = kinds.get(o['kind'], 0) + 1
    cov = dict(obligations=len(obs), discharged=len(obs) - len(bad),
               checker_cmd='python3-vt -m ccv.check %s (z3 %s via its API, cvc5 1.1.2)' % (prop, get_version_string()),
               trusted_base=P.get('trusted', []) + theory.TRUSTED + sorted({'assumed contract (not verified against its body for this property): ' + u for r in res for u in r.get('assumed', [])}) + sorted({'model of ' + m for r in res for m in r['models']}),
               functions_under_contract=sorted({'%s (%s)' % (r['function'], r['loc']) for r in res if r['function'] and not r['broke']}),
               functions_inlined=sorted({m for r in res for m in r['inlined']}),
               functions_not_within_reach=['%s: %s' % (f, b.strip().splitlines()[-1][:300] if b.strip() else '') for f, b in breaks],
               obligations_by_kind=kinds, discharged_by_backend=back,
               solver_seconds=round(sum(r.get('solver_s', 0) for r in res), 2), solver_queries=sum(r.get('queries', 0) for r in res),
               loops_with_invariants=[dict(loc=l['loc'], fn=l['fn'], invariants=l['invariants'], rounds=l['rounds']) for r in res for l in r['loops']],
               preconditions_satisfiable=dict(checked=sum(r['vac'] is not None for r in res), vacuous=vac))
    if breaks:
        cov['explanation'] = 'Functions listed under functions_not_within_reach are NOT proved on this source; only the bounded search below stands in for them.'
    if hres:
        cov['search'] = dict(role='bounded stand-in and search for failing inputs; never counted as proof', bound=hres['bound'], executions=hres['count'], failed=bool(hres['failed']), error=hres['error'][-300:])
    if not P['specs']:
        cov.update(evaluations=hres['count'] if hres else 0, case=hres['bound'] if hres else '', exhaustive=False, explanation='Bounded search on the real code only; no contract of this property is registered yet.')
    elif not obs:
        cov['explanation'] = 'No obligation could be generated from this source: ' + '; '.join(b[-300:] for _, b in breaks)
    ev = dict(property=prop, tier=tier, seed=seed, level=P['level'], coverage=cov, assumptions=P.get('assumptions', []), wall_s=round(time.time() - t0, 2), violations=viol)
    with open('%s/evidence/%s.json' % (VERIF, prop), 'w') as f:
        json.dump(ev, f, indent=1)


if __name__ == '__main__':
    main()
