"""Discharging of verification conditions: z3 (E-matching), then cvc5, then z3 with other settings."""
import hashlib, os, time, subprocess, tempfile, atexit
from concurrent.futures import ProcessPoolExecutor
from z3 import *
from . import theory as T

_SYMS = {}


def symbols(e, acc, seen):
    st = [e]
    while st:
        x = st.pop()
        i = x.get_id()
        if i in seen:
            continue
        seen.add(i)
        if is_quantifier(x):
            st.append(x.body())
            for k in range(x.num_patterns()):
                st.append(x.pattern(k))
        elif is_app(x):
            d = x.decl()
            if d.kind() == Z3_OP_UNINTERPRETED:
                acc.add(d.name())
            st.extend(x.children())


EXTRA_AXIOMS = []  # (symbol names, list of formulas) registered by the specifications


_AX = {}


def memo(f):
    if f not in _AX:
        _AX[f] = f()
    return _AX[f]


def syms_of(f):
    k = f.get_id()
    r = _SYMS.get(k)
    if r is None:
        acc = set()
        symbols(f, acc, set())
        r = _SYMS[k] = (f, acc)     # keeps f alive, hence its id unique
    return r[1]


def with_axioms(facts, goal):
    acc, seen = set(), set()
    for f in facts:
        acc |= syms_of(f)
    acc |= syms_of(goal)
    out = list(facts)
    groups = [({'lin', 'lsz'}, T.lin_axioms), ({'S', 'Sz'}, T.truth_axioms), ({'cum'}, T.seq_axioms), ({'fin'}, T.fin_axioms), ({'imul'}, T.imul_axioms), ({'dot'}, T.dot_axioms)] + EXTRA_AXIOMS
    done = set()
    changed = True
    while changed:
        changed = False
        for n, (syms, f) in enumerate(groups):
            if n not in done and acc & syms:
                done.add(n)
                fs = memo(f)
                out += fs
                for x in fs:
                    acc |= syms_of(x)
                changed = True
    if acc & {'toG', 'fromG', 'gm', 'ginv', 'act'}:
        out += memo(T.field_axioms)
    return out


def to_smt2(facts, goal):
    s = Solver()
    for f in with_axioms(facts, goal):
        s.add(f)
    s.add(Not(goal))
    return s.to_smt2()


CONFIGS = {
    'z3': dict(auto_config=False, mbqi=False),
    'z3q': dict(auto_config=False, mbqi=False, rlimit=600000),
    'z3b': dict(auto_config=False, mbqi=False, relevancy=0),
    'z3c': dict(auto_config=False, mbqi=False, seed=7, arith=2),
    'z3d': dict(auto_config=False, mbqi=False, case_split=3, seed=3),
}


def run_z3(smt2, timeout_ms, cfg):
    c = Context()
    s = Solver(ctx=c) if cfg.get('auto_config', True) else SolverFor('ALL', ctx=c) if False else Solver(ctx=c)
    s.set('timeout', timeout_ms)
    if not cfg.get('auto_config', True):
        s.set('smt.auto_config', False)
    s.set('smt.mbqi', cfg.get('mbqi', True))
    if 'relevancy' in cfg:
        s.set('smt.relevancy', cfg['relevancy'])
    if 'seed' in cfg:
        s.set('smt.random_seed', cfg['seed'])
    if 'rlimit' in cfg:
        s.set('rlimit', cfg['rlimit'])
    if 'arith' in cfg:
        s.set('smt.arith.solver', cfg['arith'])
    if 'case_split' in cfg:
        s.set('smt.case_split', cfg['case_split'])
    s.add(parse_smt2_string(smt2, ctx=c))
    r = s.check()
    return 'proved' if r == unsat else ('refuted' if r == sat else 'unknown')


def run_cvc5(smt2, timeout_ms):
    with tempfile.NamedTemporaryFile('w', suffix='.smt2', delete=False) as f:
        f.write('(set-logic ALL)\n' + '\n'.join(l for l in smt2.splitlines() if not l.startswith('(set-info') and not l.startswith('; ')))
    try:
        p = subprocess.run(['cvc5', '--tlimit=%d' % timeout_ms, f.name], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout_ms / 1000 + 5)
        o = p.stdout.decode(errors='replace').split()
        return 'proved' if o[:1] == ['unsat'] else ('refuted' if o[:1] == ['sat'] else 'unknown')
    except Exception:
        return 'unknown'
    finally:
        os.unlink(f.name)


OLD = {'z3-4.8': [], 'z3-4.8e': ['smt.auto_config=false', 'smt.mbqi=false']}


def run_old(smt2, timeout_ms, opts):
    """The z3 4.8 binary: other quantifier heuristics than the current release."""
    with tempfile.NamedTemporaryFile('w', suffix='.smt2', delete=False) as f:
        f.write(smt2)
    try:
        p = subprocess.run(['z3', '-t:%d' % timeout_ms] + opts + [f.name], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout_ms / 1000 + 5)
        o = p.stdout.decode(errors='replace').split()
        return 'proved' if o[:1] == ['unsat'] else ('refuted' if o[:1] == ['sat'] else 'unknown')
    except Exception:
        return 'unknown'
    finally:
        os.unlink(f.name)


import multiprocessing as _mp
SLOTS = _mp.get_context('fork').BoundedSemaphore(int(os.environ.get('CCV_JOBS', os.cpu_count() or 4)))


def solve_one(a):
    with SLOTS:
        return solve_one_(a)


def solve_one_(a):
    """a = (smt2, effort) -> (status, backend, seconds)"""
    smt2, effort = a
    t = time.time()
    plan = [('z3', 1200), ('z3-4.8e', 1200)]
    if effort < 0:
        plan = [('z3q', 3000)]
    if effort >= 1:
        plan = [('z3-4.8e', 3000), ('z3', 3000), ('cvc5', 5000), ('z3-4.8', 3000), ('z3c', 3000)]
    if effort >= 2:
        plan = [('z3-4.8e', 10000), ('z3', 20000), ('cvc5', 25000), ('z3-4.8', 15000), ('z3c', 15000), ('z3b', 15000), ('z3d', 15000)]
    refuted = False
    for b, to in plan:
        r = run_cvc5(smt2, to) if b == 'cvc5' else run_old(smt2, to, OLD[b]) if b in OLD else run_z3(smt2, to, CONFIGS[b])
        if r == 'proved':
            return r, b, time.time() - t
        refuted = refuted or r == 'refuted'
    return ('refuted' if refuted else 'unknown'), '', time.time() - t


class Prover:
    def __init__(self, jobs=None):
        self.jobs = jobs or int(os.environ.get('CCV_JOBS', os.cpu_count() or 4))
        self.pool = None
        self.cache = {}
        self.stats = dict(queries=0, seconds=0.0, backends={})

    def _pool(self):
        if self.pool is None:
            import multiprocessing as mp
            self.pool = ProcessPoolExecutor(self.jobs, mp_context=mp.get_context('fork'))
            atexit.register(self.close)
        return self.pool

    def close(self):
        if self.pool:
            self.pool.shutdown(wait=False, cancel_futures=True)
            self.pool = None

    def prove_many(self, qs, effort=0):
        """qs: list of (facts, goal) -> list of (status, backend, seconds)"""
        out = [None] * len(qs)
        todo = {}
        for i, (facts, goal) in enumerate(qs):
            if is_true(goal):
                out[i] = ('proved', 'trivial', 0.0)
                continue
            if any(f.eq(goal) for f in facts):
                out[i] = ('proved', 'hypothesis', 0.0)
                continue
            s = to_smt2(facts, goal)
            h = (hashlib.sha1(s.encode()).digest(), effort)
            if h in self.cache:
                out[i] = self.cache[h]
            else:
                todo.setdefault(h, (s, []))[1].append(i)
        if todo:
            ks = list(todo)
            args = [(todo[h][0], effort) for h in ks]
            res = list(self._pool().map(solve_one, args)) if len(args) > 1 else [solve_one(args[0])]
            for h, r in zip(ks, res):
                self.cache[h] = r
                self.stats['queries'] += 1
                self.stats['seconds'] += r[2]
                for i in todo[h][1]:
                    out[i] = r
        return out
