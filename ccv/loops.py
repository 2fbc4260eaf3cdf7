"""Loops: places modified by an iteration are found by execution, then forgotten; the invariant is the
largest subset of the candidate pool that holds initially and is preserved (Houdini)."""
from z3 import *
from .theory import *
from .values import *
from .ctypes_ import Break, Ty
from .solve import symbols


def refresh(E, st, v, ty, name):
    """An arbitrary value of the same shape."""
    if isinstance(v, VIter):
        if v.kind == 'map':
            return VIter('map', v.lv, pos=fint(name), end=fconst(name + '.end', B), rev=v.rev)
        return VIter(v.kind, v.lv, pos=fint(name), end=None, rev=v.rev)
    if isinstance(v, VPtr):
        if v.lv is None:
            raise Break('pointer modified in a loop')
        if v.off is None:
            raise Break('object pointer modified in a loop')
        return VPtr(v.lv, fint(name), v.null, v.size)
    if isinstance(v, VStruct):
        return VStruct(v.ty, {f: (x if isinstance(x, Lv) else refresh(E, st, x, E.T.get(dict(v.ty.fields)[f]), name + '.' + f)) for f, x in v.fields.items()})
    if isinstance(v, VVec):
        n = fint(name + '.n') if v.ty.k != 'carray' else v.n
        st.assume(n >= 0, n < 2 ** 48)
        return VVec(v.ty, n, {p: fconst(name + '.' + p, a.sort()) for p, a in v.comps.items()})
    if isinstance(v, VSet):
        return VSet(v.ty, fconst(name, SetS))
    if isinstance(v, VMap):
        return VMap(v.ty, fconst(name, SetS), {p: fconst(name + '.' + p, a.sort()) for p, a in v.comps.items()})
    if isinstance(v, VOpt):
        return VOpt(v.ty, fconst(name + '.has', B), refresh(E, st, v.v, E.T.get(v.ty.el), name))
    if isinstance(v, VBE):
        return VBE(refresh(E, st, v.v, None, name), v.size)
    if isinstance(v, ExprRef):
        c = fconst(name, v.sort())
        if ty is not None and ty.k == 'int':
            st.assume(E.in_range(c, ty))
        return c
    return v


def havoc(E, st, root, path, name=None):
    lv = Lv(root, path)
    v = E.read(st, lv)
    if path:
        obj = E.read(st, Lv(root, path[:-1]))
        ty = E.T.get(dict(obj.ty.fields)[path[-1][1]]) if isinstance(obj, VStruct) else None
    else:
        ty = E.roottypes.get(root)
    nm = name or (path[-1][1] if path else root.lstrip('#').split('!')[0])
    E.write(st, lv, refresh(E, st, v, ty, nm))


def norm(mods):
    out = set()
    for r, p in mods:
        if any((r, p[:i]) in mods for i in range(len(p))):
            continue
        out.add((r, p))
    return out


def iteration(E, st, n, rf):
    """One iteration from a loop-head state. Yields (st, kind, payload):
    'exit' | 'next' | 'brk' | ('ret'|'throw', o)"""
    def heads():
        if n['k'] == 'do':
            yield st, True
        elif rf is not None:
            yield from E.split(st, rf.cond(E, st))
        elif n.get('cond') is None:
            yield st, True
        else:
            yield from E.cond(st, n['cond'])
    for s, b in heads():
        if isinstance(b, Throw):
            yield s, 'out', ('throw', b)
            continue
        if not b:
            yield s, 'exit', None
            continue
        if rf is not None:
            rf.bind(E, s, n)
        for s2, o in E.ex(s, n['body']):
            if o is None or o == ('cont',):
                if rf is not None:
                    rf.inc(E, s2)
                    yield s2, 'next', None
                elif n['k'] == 'for' and n.get('inc'):
                    for s3, v in E.ev(s2, n['inc']):
                        if isinstance(v, Throw):
                            yield s3, 'out', ('throw', v)
                        else:
                            yield s3, 'next', None
                elif n['k'] == 'do':
                    for s3, b3 in E.cond(s2, n['cond']):
                        if isinstance(b3, Throw):
                            yield s3, 'out', ('throw', b3)
                        else:
                            yield s3, ('next' if b3 else 'exit'), None
                else:
                    yield s2, 'next', None
            elif o == ('brk',):
                yield s2, 'exit', None
            else:
                yield s2, 'out', o


class RangeFor:
    """for (x : c): a hidden position."""
    def __init__(self, E, st, n, lv):
        self.lv = lv
        v = E.read(st, lv)
        if isinstance(v, VMap):
            self.kind = 'map'
            E.lib.setfacts(E, st, v.dom)
            it = VIter('map', lv, pos=mn(v.dom), end=card(v.dom) == 0)
        elif isinstance(v, VSet):
            self.kind = 'set'
            E.lib.setfacts(E, st, v.a)
            it = VIter('seq', lv, pos=IntVal(0))
            self.n = card(v.a)
        elif isinstance(v, VVec):
            self.kind = 'seq'
            it = VIter('seq', lv, pos=IntVal(0))
            self.n = v.n
        else:
            raise Break('range-for over %r' % v)
        self.it = E.alloc(st, it, 'it')

    def cond(self, E, st):
        it = E.read(st, self.it)
        return Not(it.end) if self.kind == 'map' else it.pos != self.n

    def bind(self, E, st, n):
        it = E.read(st, self.it)
        e = E.lib.iter_deref(E, st, it, n['loc'])
        v = n['var']
        if E.T.isref(v['t']):
            st.env[v['id']] = e if isinstance(e, Lv) else E.alloc(st, e, v['name'])
        else:
            x = E.val(st, e)
            st.env[v['id']] = E.alloc(st, x, v['name'])

    def inc(self, E, st):
        it = E.read(st, self.it)
        E.write(st, self.it, E.lib.iter_next(E, st, it))


def run_loop(E, st, n):
    if n['k'] == 'for' and n.get('init'):
        starts = list(E.ex(st, n['init']))
    elif n['k'] == 'rangefor':
        starts = []
        for s, r in E.ev(st, n['range']):
            starts.append((s, ('throw', r) if isinstance(r, Throw) else ('range', r)))
    else:
        starts = [(st, None)]
    for s0, o in starts:
        rf = None
        if o is not None and o[0] == 'range':
            lv = o[1] if isinstance(o[1], Lv) else E.alloc(s0, o[1], 'range')
            v = E.read(s0, lv)
            rf = RangeFor(E, s0, n, lv)
        elif o is not None:
            yield s0, o
            continue
        yield from one_loop(E, s0, n, rf)


def discover(E, s0, n, rf):
    mods = set()
    E.quiet += 1
    sw, sd = E.writes, E.discovering
    E.discovering = True
    try:
        for _ in range(12):
            E.writes = set()
            s = s0.copy()
            for r, p in sorted(mods, key=repr):
                havoc(E, s, r, p)
            E.writes = set()
            for x in iteration(E, s, n, rf):
                pass
            new = norm({(r, p) for r, p in E.writes if r in s0.store} | mods)
            if new == mods:
                break
            mods = new
        else:
            raise Break('modified set of a loop')
    finally:
        E.quiet -= 1
        E.writes, E.discovering = sw, sd
        if E.writes is not None:
            E.writes |= mods
    return mods


def one_loop(E, s0, n, rf):
    mods = discover(E, s0, n, rf)
    if E.discovering:
        s1 = s0.copy()
        for r, p in sorted(mods, key=repr):
            havoc(E, s1, r, p)
        for s, k, o in iteration(E, s1, n, rf):
            if k == 'exit':
                yield s, None
            elif k == 'out':
                yield s, o
        # (states after several iterations are covered by the havoc)
        return
    info = dict(fn=E.cur, loc=n['loc'].rsplit('/', 1)[-1])
    L = Loop(E, s0, n, mods, rf)
    cands = L.candidates()
    # A loop inside a loop is analysed again in each round of the outer one, with fewer hypotheses: what was dropped
    # before would be dropped again.
    occ = E.occ[-1]
    num = occ[n['loc']] = occ.get(n['loc'], 0) + 1
    key = (E.cur, E.ctx, n['loc'], num)
    names = [c[0] for c in cands]
    prev = E.loopcache.get(key) if len(E.occ) > 1 else None
    if prev and prev[0] == names:
        keep = prev[1]
        L.generic = sum(1 for i in keep if i < L.generic)
        cands = [cands[i] for i in keep]
    else:
        keep = list(range(len(cands)))
    # generic guesses that another path through this loop did not preserve are not tried again
    lost = E.lostguesses.setdefault((E.cur, n['loc']), set())
    if lost:
        ok = [i for i, c in enumerate(cands) if i >= L.generic or c[0] not in lost]
        L.generic = sum(1 for i in ok if i < L.generic)
        cands, keep = [cands[i] for i in ok], [keep[i] for i in ok]
    where = {id(c): i for c, i in zip(cands, keep)}
    qs = [(E.facts(s0), f(s0)) for nm, f in cands]
    res = E.prover.prove_many(qs, effort=-1)
    if any(r[0] != 'proved' for r in res[L.generic:]):
        r2 = E.prover.prove_many([q for q in qs[L.generic:]], effort=1)
        res = res[:L.generic] + r2
    pool = {id(c) for c in cands[L.generic:]}
    act = [c for c, r in zip(cands, res) if r[0] == 'proved']
    if E.verbose:
        print('%.0f' % (__import__('time').time() % 10000), '  loop %s: %d candidates, %d hold initially; dropped: %s' % (info['loc'], len(cands), len(act), [c[0] for c, r in zip(cands, res) if r[0] != 'proved']))
    if E.forget:
        s0 = forget(E, s0)
    outs = None
    if len(E.occ) == 1 and not E.quiet and E.start and not E.single:
        g = generalized(E, s0, n, rf, mods, cands, act, pool, lost, key, info)
        if g is not None:
            act = [c for c in act if c[0] in g[0]]
            rounds = g[1]
            s1 = s0.copy()
            for r, p in sorted(mods, key=repr):
                havoc(E, s1, r, p)
            for nm, f in act:
                s1.assume(f(s1))
            E.quiet += 1
            sctx, E.ctx = E.ctx, key
            E.occ.append({})
            try:
                outs = [o for o in iteration(E, s1, n, rf) if o[1] != 'next']
            finally:
                E.quiet -= 1
                E.occ.pop()
                E.ctx = sctx
    if outs is None:
        act, outs, rounds = rounds_of(E, s0, n, rf, L, mods, act, pool, lost, key, info)
    E.loopcache[key] = (names, [where[id(c)] for c in act])
    info['invariants'] = [c[0] for c in act]
    info['rounds'] = rounds
    if not E.quiet:
        E.loopinfo.append(info)
    for s, k, o in outs:
        if k == 'exit':
            yield s, None
        elif k == 'out':
            yield s, o

def forget(E, s0):
    """The state without the facts about former contents of arrays that no variable refers to any more (what matters of
    them at this point is in the candidates)."""
    from .verify import terms
    live = set()
    roots = {lv.root for lv in s0.env.values()} | {'this'} | {r for r in s0.store if r.startswith('$') or r.startswith('&')}
    for r in roots:
        if r in s0.store:
            for t in terms(s0.store[r]):
                symbols(t, live, set())
    for v in E.start.store.values():
        for t in terms(v):
            symbols(t, live, set())
    for x in E.start.pc:
        symbols(x, live, set())
    s = s0.copy()
    out = []
    for x in s0.pc:
        acc = set()
        symbols(x, acc, set())
        if not any(a not in live and a in ARRAYS for a in acc):
            out.append(x)
    s.pc = out
    return s


def rounds_of(E, s0, n, rf, L, mods, act, pool, lost, key, info):
    """Houdini: the largest subset of `act` that an iteration preserves; the outcomes and obligations of that iteration."""
    rounds = 0
    while True:
        rounds += 1
        s1 = s0.copy()
        for r, p in sorted(mods, key=repr):
            havoc(E, s1, r, p)
        L.head(s1)
        for nm, f in act:
            s1.assume(f(s1))
        saved, E.obs = E.obs, []
        E.occ.append({})
        sctx, E.ctx = E.ctx, key
        outs = list(iteration(E, s1, n, rf))
        E.ctx = sctx
        E.occ.pop()
        qs, idx = [], []
        for s, k, o in outs:
            if k == 'next':
                fs = E.facts(s)
                for i, (nm, f) in enumerate(act):
                    qs.append((fs, f(s)))
                    idx.append(i)
        res = E.prover.prove_many(qs, effort=-1)
        # second chance for the ones that look important
        bad = [j for j, r in enumerate(res) if r[0] != 'proved']
        if bad:
            gen = [j for j in bad if id(act[idx[j]]) not in pool]
            if not gen:   # second chance, once only the specified candidates are left
                r2 = E.prover.prove_many([qs[j] for j in bad], effort=1)
                bad = [j for j, r in zip(bad, r2) if r[0] != 'proved']
            else:
                bad = gen
        drop = {idx[j] for j in bad}
        if drop:
            if E.verbose:
                import os, re
                from .solve import to_smt2
                for j in bad:
                    if id(act[idx[j]]) in pool and os.path.isdir('/tmp/x'):
                        open('/tmp/x/drop.%s.smt2' % re.sub(r'\W+', '_', '%s_%d_%s' % (info['loc'][-3:], rounds, act[idx[j]][0])), 'w').write(to_smt2(*qs[j]))
                print('%.0f' % (__import__('time').time() % 10000), '  loop %s round %d drops %s' % (info['loc'], rounds, [act[i][0] for i in sorted(drop)]))
            lost.update(act[i][0] for i in drop if id(act[i]) not in pool)
            act = [c for i, c in enumerate(act) if i not in drop]
            E.obs = saved
            continue
        E.obs = saved + E.obs
        return act, outs, rounds


def vars_in(n, acc):
    if isinstance(n, dict):
        if n.get('k') == 'var' and 'id' in n:
            acc.add(n['id'])
        for v in n.values():
            vars_in(v, acc)
    elif isinstance(n, list):
        for v in n:
            vars_in(v, acc)


def plain(v):
    """No reference to another object in it, except through fields."""
    if isinstance(v, VIter) or isinstance(v, VPtr):
        return v.lv is not None and all(e[0] == 'f' for e in v.lv.path)
    if isinstance(v, VStruct):
        return all(plain(x) for x in v.fields.values())
    return not isinstance(v, (Lv, VClosure, VOpaque))


def generalized(E, s0, n, rf, mods, cands, act, pool, lost, key, info):
    """The step of an outermost loop, proved once for all the paths that lead to it: from the hypotheses of the function
    alone, with everything else arbitrary. None if that does not work."""
    if rf is not None and rf.kind != 'map':
        return None
    used = set()
    vars_in(n, used)
    roots = {'this'} | {r for r, p in mods} | {r for r in s0.store if r.startswith('$')}
    for i in used:
        lv = s0.env.get(i)
        if lv is None:
            continue
        if any(e[0] != 'f' for e in lv.path):
            return None
        roots.add(lv.root)
    if rf is not None:
        roots.add(rf.it.root)
        roots.add(rf.lv.root)
    start = E.start
    names = tuple(c[0] for c in act)
    k = (E.cur, n['loc'], names, tuple(sorted(repr(m).split('!')[0] for m in mods)))
    if k in E.gensteps:
        return E.gensteps[k]
    E.gensteps[k] = None
    g = s0.copy()
    g.pc, g.known = list(start.pc), set(start.known)

    atstart = set()
    for x in start.pc:
        symbols(x, atstart, set())
    from .verify import terms
    for v in start.store.values():
        for t in terms(v):
            symbols(t, atstart, set())

    def general(lv, v, v0):
        if v is v0:
            return v
        if isinstance(v, ExprRef) and (lv.root, lv.path) not in mods:
            acc = set()
            symbols(v, acc, set())
            if acc <= atstart:
                return v
        if isinstance(v, VStruct) and isinstance(v0, VStruct):
            return VStruct(v.ty, {f: general(lv.f(f), x, v0.fields.get(f)) for f, x in v.fields.items()})
        if not plain(v):
            raise Break('not general')
        return refresh(E, g, v, E.type_of(g, lv), 'g.' + (str(lv.path[-1][1]) if lv.path else lv.root.strip('#').split('!')[0]))
    try:
        for r in list(g.store):
            if r in roots:
                g.store[r] = general(Lv(r), g.store[r], start.store.get(r))
            elif start.store.get(r) is not g.store[r]:
                g.store[r] = VOpaque('unused')
        from .verify import facts_of
        for r in roots:
            if r in g.store:
                facts_of(E, g, g.store[r])
        L = Loop(E, g, n, mods, rf)
        cg = L.candidates()
        want = set(names)
        if len(set(c[0] for c in cg)) != len(cg):
            return None
        ag = [c for c in cg if c[0] in want]
        if {c[0] for c in ag} != want:
            return None
        pn = {c[0] for c in act if id(c) in pool}
        # the entry state satisfies the candidates too
        for nm, f in ag:
            g.assume(f(g))
        n0 = len(E.obs)
        a2, outs, rounds = rounds_of(E, g, n, rf, L, mods, ag, {id(c) for c in ag if c[0] in pn}, lost, key, info)
    except (Break, KeyError, AttributeError):
        return None
    obs = E.obs[n0:]
    rs = E.prover.prove_many([(o.facts, o.goal) for o in obs], effort=0)
    bad = [i for i, r in enumerate(rs) if r[0] != 'proved']
    if bad:
        rs = E.prover.prove_many([(obs[i].facts, obs[i].goal) for i in bad], effort=1)
    kept = {c[0] for c in a2}
    if (bad and any(r[0] != 'proved' for r in rs)) or pn - kept:
        if E.verbose:
            print('  loop %s: no general step (%s %s)' % (info['loc'], [obs[i].name for i in bad], pn - kept))
        del E.obs[n0:]
        return None
    E.gensteps[k] = (kept, rounds)
    return E.gensteps[k]


class Loop:
    """The context in which candidate invariants are instantiated."""
    def __init__(self, E, s0, n, mods, rf):
        self.E, self.s0, self.n, self.mods, self.rf = E, s0, n, mods, rf

    def head(self, st):
        pass

    def locals(self):
        """Modified places with their current value at loop entry: [(root, path, value)]."""
        out = []
        for r, p in sorted(self.mods, key=repr):
            v = self.E.read(self.s0, Lv(r, p))
            out.append((r, p, v))
        return out

    def candidates(self):
        E, s0 = self.E, self.s0
        out = []
        ints, ptrs, iters, vecs = [], [], [], []

        def walk(lv, v, ty):
            if isinstance(v, VStruct):
                for f, x in v.fields.items():
                    if not isinstance(x, Lv):
                        walk(lv.f(f), x, None)
            elif isinstance(v, VIter):
                iters.append((lv, v))
            elif isinstance(v, VPtr):
                ptrs.append((lv, v))
            elif isinstance(v, ExprRef) and is_int(v):
                ints.append((lv, v))
            elif isinstance(v, VVec) and v.ty.k != 'carray':
                vecs.append((lv, v))
        for r, p, v in self.locals():
            walk(Lv(r, p), v, None)
        self.iters, self.ints, self.ptrs = iters, ints, ptrs

        def nm(lv):
            return repr(lv).split('!')[0].lstrip('#') + ''.join('.' + e[1] for e in lv.path if e[0] == 'f')
        for lv, v in iters:
            if v.kind == 'map':
                out.append(('valid(%s)' % nm(lv), lambda s, lv=lv: (lambda i: Or(i.end, E.read(s, i.lv).dom[i.pos]))(E.read(s, lv))))
            else:
                def f(s, lv=lv):
                    i = E.read(s, lv)
                    c = E.read(s, i.lv)
                    k = card(c.a) if isinstance(c, VSet) else c.n
                    return And(i.pos >= 0, i.pos <= k)
                out.append(('bounds(%s)' % nm(lv), f))
                e = v.pos
                out.append(('%s >= initial' % nm(lv), lambda s, lv=lv, e=e: E.read(s, lv).pos >= e))
                out.append(('%s <= initial' % nm(lv), lambda s, lv=lv, e=e: E.read(s, lv).pos <= e))
        for lv, v in vecs:
            out.append(('length of %s' % nm(lv), lambda s, lv=lv, e=v.n: E.read(s, lv).n == e))
        for lv, v in ptrs:
            out.append(('%s >= initial' % nm(lv), lambda s, lv=lv, e=v.off: E.read(s, lv).off >= e))

            def f(s, lv=lv):
                p = E.read(s, lv)
                c = E.read(s, p.lv)
                return p.off <= c.n if isinstance(c, VVec) else BoolVal(True)
            out.append(('%s within its buffer' % nm(lv), f))
        for lv, v in ints:
            out.append(('%s >= initial' % nm(lv), lambda s, lv=lv, e=v: E.read(s, lv) >= e))
            out.append(('%s <= initial' % nm(lv), lambda s, lv=lv, e=v: E.read(s, lv) <= e))
        # linear relations between two counters
        lin_ = [(lv, v, lambda s, lv=lv: E.read(s, lv)) for lv, v in ints] + [(lv, v.off, lambda s, lv=lv: E.read(s, lv).off) for lv, v in ptrs] + \
               [(lv, v.pos, lambda s, lv=lv: E.read(s, lv).pos) for lv, v in iters if v.kind != 'map']
        for i in range(len(lin_)):
            for j in range(i + 1, len(lin_)):
                (l1, e1, g1), (l2, e2, g2) = lin_[i], lin_[j]
                out.append(('%s + %s' % (nm(l1), nm(l2)), lambda s, g1=g1, g2=g2, c=e1 + e2: g1(s) + g2(s) == c))
                out.append(('%s - %s' % (nm(l1), nm(l2)), lambda s, g1=g1, g2=g2, c=e1 - e2: g1(s) - g2(s) == c))
        pool = list(E.loop_pool(self)) if E.loop_pool else []
        out += [c[:2] for c in pool if len(c) == 3]
        self.generic = len(out)
        out += [c for c in pool if len(c) == 2]
        return out
