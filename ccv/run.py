"""Extraction, verification of a list of functions, discharge."""
import json, os, subprocess, sys, time, tempfile
from z3 import *
from .engine import Engine
from .ctypes_ import Break
from .solve import Prover
from . import lib, verify as V

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('CCV_REPO', '/repo')
TU = ['netcode/detail/decoder.cc', 'netcode/detail/encoder.cc', 'netcode/detail/invert_matrix.cc', 'netcode/c/data.cc',
      'netcode/c/decoder.cc', 'netcode/c/encoder.cc', 'netcode/c/packet.cc']


def extract(work=None):
    d = tempfile.mkdtemp(prefix='ccv')
    tu = os.path.join(d, 'tu.cc')
    with open(tu, 'w') as f:
        for x in TU:
            if os.path.exists(os.path.join(REPO, x)):
                f.write('#include "%s"\n' % x)
        f.write('#include "%s/tu/inst.hh"\n' % VERIF)
    try:
        p = subprocess.run([VERIF + '/build/ccx', tu, REPO + '/netcode', '--', '-std=c++11', '-I' + REPO, '-w'],
                           stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=300)
        if p.returncode != 0:
            raise Break('extraction failed: ' + p.stderr.decode(errors='replace')[-2000:])
        return json.loads(p.stdout)
    finally:
        for x in os.listdir(d):
            os.unlink(os.path.join(d, x))
        os.rmdir(d)


def engine(data, contracts, prop=None, verbose=False):
    E = Engine(data, {}, lib, Prover(), verbose)
    for c in contracts:
        E.contracts[c.name] = c
    E.prop = prop
    return E


def targets(E, c):
    """Functions of the current source that a contract applies to."""
    out = []
    for f in E.fns.values():
        if f.get('body') is None:
            continue
        if c.name in E.key(f) and (not c.cls or f.get('cls') in c.cls):
            out.append(f)
    return out


def discharge(E, obs, efforts=(0, 1, 2)):
    todo = list(obs)
    for e in efforts:
        rs = E.prover.prove_many([(o.facts, o.goal) for o in todo], effort=e)
        for o, r in zip(todo, rs):
            o.status, o.backend, o.seconds = r
        todo = [o for o in todo if o.status != 'proved']
        if not todo:
            break
    return todo


def main():
    """Development entry: ccv.run SPECMODULE [name-filter] [-p PROP]"""
    import importlib, argparse
    a = argparse.ArgumentParser()
    a.add_argument('spec'); a.add_argument('filter', nargs='?', default=''); a.add_argument('-p', '--prop'); a.add_argument('-v', action='store_true')
    a.add_argument('-e', type=int, default=1)
    a.add_argument('--dump')
    a = a.parse_args()
    cache = '/tmp/x/o.json'
    data = extract()
    m = importlib.import_module('ccv.specs.' + a.spec)
    E = engine(data, m.contracts(), a.prop, a.v)
    if a.prop and a.prop != 'C08':
        E.safety = False
    if hasattr(m, 'prepare'):
        m.prepare(E)
    for ln, fn, tags in (m.lemmas() if hasattr(m, 'lemmas') else []):
        if a.filter in 'lemma ' + ln:
            E.cur = ln
            n0 = len(E.obs)
            t = time.time()
            fn(E)
            bad = discharge(E, E.obs[n0:], tuple(range(a.e + 1)))
            print('%-60s %3d obligations, %d failed  (%.1fs)' % ('lemma ' + ln, len(E.obs) - n0, len(bad), time.time() - t))
            for i, o in enumerate(bad):
                print('   FAILED', o.kind, o.name, o.status)
                if a.dump:
                    from .solve import to_smt2
                    open('%s.%d.smt2' % (a.dump, i), 'w').write(to_smt2(o.facts, o.goal))
    for c in list(E.contracts.values()):
        if a.filter not in c.name or getattr(c, 'trusted', False):
            continue
        for f in targets(E, c):
            t = time.time()
            try:
                obs = V.verify(E, f, c)
            except Break as b:
                print('BREAK', c.name, b)
                if a.v:
                    import traceback; traceback.print_exc()
                continue
            t1 = time.time()
            bad = discharge(E, obs, tuple(range(a.e + 1)))
            print('%-60s %3d obligations, %d failed  (gen %.1fs, solve %.1fs)' % (c.name[-60:], len(obs), len(bad), t1 - t, time.time() - t1))
            for i, o in enumerate(bad):
                print('   FAILED', o.kind, o.name, o.loc.rsplit('/', 1)[-1], o.status)
                if a.dump:
                    from .solve import to_smt2
                    open('%s.%d.smt2' % (a.dump, i), 'w').write(to_smt2(o.facts, o.goal))


if __name__ == '__main__':
    main()
