"""Contracts: their use at call sites and their verification against bodies."""
import time
from z3 import *
from .theory import *
from .values import *
from .ctypes_ import Break, Ty
from .engine import Engine, St, is_q
from . import loops, lib

ALL = 'ALL'


class Contract:
    """requires/ensures: cx -> [(name, formula, tags)]; modifies: cx -> [Lv]; result: cx -> value;
    throws: {exception type: cx -> [(name, formula, tags)]}; setup: cx -> None (shapes of pointer arguments)."""
    def __init__(self, name, requires=None, ensures=None, modifies=None, result=None, throws=None, setup=None,
                 cls=None, params=None, effect=None, pool=None, lemmas=None, ctor=False, inline=False, trusted=False, single=False):
        self.single = single      # its loops are reached by one path: their steps are not proved for all paths at once
        self.inline, self.trusted = inline, trusted
        self.name, self.requires, self.ensures, self.modifies, self.result = name, requires, ensures, modifies, result
        self.throws, self.setup, self.cls, self.params = throws or {}, setup, cls, params
        self.effect, self.pool, self.lemmas, self.ctor = effect, pool, lemmas, ctor

    def get(self, k, d=None):
        return getattr(self, k, d)


class View:
    """Fields of an object in a state."""
    def __init__(self, E, st, lv):
        self.__dict__.update(_E=E, _st=st, _lv=lv)

    def __getattr__(self, f):
        v = self._E.read(self._st, self._lv.f(f))
        if isinstance(v, VStruct):
            return View(self._E, self._st, self._lv.f(f))
        return v

    def lv(self, *fs):
        l = self._lv
        for f in fs:
            l = l.f(f)
        return l

    def val(self):
        return self._E.read(self._st, self._lv)


class Cx:
    def __init__(self, E, st, f, this, args, mode, loc=''):
        self.E, self.st, self.f, self.this, self.args, self.mode, self.loc = E, st, f, this, args, mode, loc
        self.pre = None
        self.r = None

    def o(self, st=None):
        """The object, now (or in another state)."""
        return View(self.E, st or self.st, self.this)

    @property
    def old(self):
        return View(self.E, self.pre, self.this)

    @property
    def new(self):
        return View(self.E, self.st, self.this)

    def arg(self, i, st=None):
        v = self.E.read(st or self.st, self.args[i])
        return View(self.E, st or self.st, self.args[i]) if isinstance(v, VStruct) else v

    def oarg(self, i):
        return self.arg(i, self.pre)

    def ghost(self, name, st=None):
        return (st or self.st).store[name]

    def oghost(self, name):
        return self.pre.store[name]

    @property
    def res(self):
        r = self.r
        if isinstance(r, Lv):
            v = self.E.read(self.st, r)
            return View(self.E, self.st, r) if isinstance(v, VStruct) else v
        if isinstance(r, VStruct):
            lv = self.E.alloc(self.st, r, 'res')
            return View(self.E, self.st, lv)
        return r


def use(E, items):
    """The conjuncts that belong to the property being decided."""
    out = []
    for it in items or []:
        nm, f, tags = it if len(it) == 3 else (it[0], it[1], ALL)
        if E.prop is None or tags == ALL or E.prop in tags:
            out.append((nm, f, tags))
    return out


def apply_contract(E, st, c, f, this, args, loc):
    E.used_contracts.add(c.name)
    lvs = []
    for p, a in zip(f['params'], args):
        if E.T.isref(p['t']):
            lvs.append(a if isinstance(a, Lv) else E.alloc(st, a, 'arg'))
        else:
            lvs.append(E.alloc(st, E.val(st, a), 'arg'))
    senv, sthis = st.env, st.this
    cx = Cx(E, st, f, this, lvs, 'call', loc)
    st.this = this
    short = c.name.rsplit('::', 1)[-1]
    if c.lemmas:
        st.assume(c.lemmas(cx))
    for nm, g, tags in use(E, c.requires(cx) if c.requires else []):
        E.oblige(st, g, 'precondition of %s: %s' % (short, nm), loc, kind='pre')
    pre = st.copy()
    cx.pre = pre
    outs = [(None, st)]
    for ty in c.throws:
        s2 = st.copy()
        outs.append((ty, s2))
    for ty, s in outs:
        cx = Cx(E, s, f, this, lvs, 'call', loc)
        cx.pre = pre
        cx.throwing = ty
        mods = list(c.modifies(cx)) if c.modifies else []
        for p, lv in zip(f['params'], lvs):
            if p['t'].rstrip().endswith('&&') and isinstance(E.read(s, lv), (VStruct, VVec, VSet, VMap)):
                mods.append(lv)
        for lv in mods:
            if lv.path or lv.root in s.store:
                havoc_lv(E, s, lv)
        if ty is None:
            rt = E.T.get(f['ret']) if f.get('ret') else Ty('void')
            if c.result:
                cx.r = c.result(cx)
            elif rt.k == 'void':
                cx.r = VOID
            else:
                cx.r = E.fresh(s, rt, short)
        items = (c.ensures(cx) if c.ensures else []) if ty is None else c.throws[ty](cx)
        for nm, g, tags in use(E, items):
            s.assume(g)
        if c.effect:
            c.effect(cx)
        if ty is not None and not E.feasible(s):
            continue
        s.env, s.this = dict(senv), sthis
        yield s, (cx.r if ty is None else Throw(ty))


def havoc_lv(E, st, lv):
    """Forget the value of a place (possibly an element of a container)."""
    v = E.read(st, lv)
    nm = lv.path[-1][1] if lv.path and lv.path[-1][0] == 'f' else lv.root.strip('#$').split('!')[0]
    nv = loops.refresh(E, st, v, E.type_of(st, lv), str(nm))
    E.write(st, lv, nv)
    facts_of(E, st, nv)


def facts_of(E, st, v):
    if isinstance(v, VSet):
        lib.setfacts(E, st, v.a)
    elif isinstance(v, VMap):
        lib.setfacts(E, st, v.dom)
    elif isinstance(v, VStruct):
        for x in v.fields.values():
            if not isinstance(x, Lv):
                facts_of(E, st, x)


class Result:
    pass


def start(E, f, c):
    st = St()
    this = None
    if f.get('cls') and not f.get('static'):
        ty = E.T.get(f['cls'])
        this = Lv('this')
        if 'inits' in f and f['inits'] is not None and is_ctor(f):
            st.store['this'] = E.blank(st, ty, 'this')
        else:
            st.this = this
            st.store['this'] = fresh_obj(E, st, ty, 'this')
        E.roottypes['this'] = ty
        st.this = this
    args = []
    for n, p in enumerate(f['params']):
        ty = E.T.get(p['t'])
        r = '&' + (p['name'] or 'arg%d' % n)
        E.roottypes[r] = ty
        if ty.k == 'ptr':
            st.store[r] = VOpaque('ptr')
        else:
            st.store[r] = fresh_obj(E, st, ty, p['name'] or 'arg%d' % n)
        args.append(Lv(r))
        st.env[p['id']] = Lv(r)
    cx = Cx(E, st, f, this, args, 'verify', f['loc'])
    cx.loc = f['loc']
    return st, cx


def is_ctor(f):
    return f.get('inits') is not None and 'inits' in f


def fresh_obj(E, st, ty, name):
    if ty.k == 'struct':
        d = {}
        for fl, t in ty.fields:
            if E.T.isref(t):
                r = '&' + name + '.' + fl
                tt = E.T.get(t)
                st.store[r] = fresh_obj(E, st, tt, name + '.' + fl)
                E.roottypes[r] = tt
                d[fl] = Lv(r)
            else:
                d[fl] = fresh_obj(E, st, E.T.get(t), name + '.' + fl)
        return VStruct(ty, d)
    if ty.k == 'ptr':
        return VOpaque('ptr ' + name)
    if ty.k == 'vec' and E.T.get(ty.el).k == 'ptr':
        v = VVec(ty, fint(name + '.n'), {'': fconst(name, ArraySort(I, I))})
        st.assume(v.n >= 0, v.n < 2 ** 48)
        return v
    v = E.fresh(st, ty, name)
    facts_of(E, st, v)
    return v


def verify(E, f, c):
    """Generates the obligations of one function; returns the list."""
    try:
        return verify_(E, f, c)
    except Break:
        raise
    except (AttributeError, KeyError, IndexError, TypeError, ValueError, AssertionError, Z3Exception) as e:
        import traceback
        raise Break('%s: %s' % (type(e).__name__, traceback.format_exc()[-700:]))


def verify_(E, f, c):
    n0 = len(E.obs)
    E.cur = c.name
    st, cx = start(E, f, c)
    if c.setup:
        c.setup(cx)
    E.loop_pool = c.pool
    E.single = c.single
    if c.lemmas:
        st.assume(c.lemmas(cx))
    for nm, g, tags in use(E, c.requires(cx) if c.requires else []):
        st.assume(g)
    E.vacuity.append((c.name, list(st.pc)))
    pre = st.copy()
    E.start = pre.copy()
    E.callstack = [f['id']]
    E.depth = 0
    exits = 0
    for s, o in E.run_body(st, f):
        exits += 1
        cx2 = Cx(E, s, f, cx.this, cx.args, 'verify', f['loc'])
        cx2.pre = pre
        s.this = cx.this
        if isinstance(o, Throw):
            if o.ty not in c.throws:
                E.oblige(s, BoolVal(False), 'throws only what its contract allows (%s)' % o.ty, f['loc'], kind='throw')
                continue
            cx2.throwing = o.ty
            items = c.throws[o.ty](cx2)
        else:
            cx2.throwing = None
            cx2.r = o
            items = c.ensures(cx2) if c.ensures else []
        for nm, g, tags in use(E, items):
            E.oblige_only(s, g, nm, f['loc'], kind='post')
        frame(E, s, pre, c, cx2, f)
    if exits == 0:
        E.oblige_only(st, BoolVal(True), 'no exit', f['loc'])
    E.callstack = []
    E.start = None
    E.loop_pool = None
    return E.obs[n0:]


def frame(E, s, pre, c, cx, f):
    mods = list(c.modifies(cx)) if c.modifies else []
    for p, lv in zip(f['params'], cx.args):
        if p['t'].rstrip().endswith('&&') or not E.T.isref(p['t']):
            mods.append(lv)
    if is_ctor(f):
        mods.append(cx.this)
    keys = {(m.root, m.path) for m in mods}

    def walk(lv, a, b):
        if (lv.root, lv.path) in keys:
            return
        if a is b:
            return
        below = any(m.root == lv.root and m.path[:len(lv.path)] == lv.path for m in mods)
        if isinstance(a, VStruct) and isinstance(b, VStruct):
            for k in a.fields:
                walk(lv.f(k), a.fields[k], b.fields[k])
            return
        if isinstance(a, Lv) or isinstance(b, Lv) or isinstance(a, (VOpaque, VClosure)) or isinstance(b, (VOpaque, VClosure)):
            return
        if below and isinstance(a, VMap):
            # element-wise modification: everything but the listed elements is unchanged
            ex = [m.path[len(lv.path)][1] for m in mods if m.root == lv.root and m.path[:len(lv.path)] == lv.path]
            E.oblige_only(s, a.dom == b.dom, 'frame: keys of %s unchanged' % lv, f['loc'], kind='frame')
            for p in a.comps:
                x = b.comps[p]
                y = a.comps[p]
                for k in ex:
                    y = Store(y, k, x[k])
                if not x.eq(y):
                    E.oblige_only(s, x == y, 'frame: other elements of %s unchanged' % lv, f['loc'], kind='frame')
            return
        for x, y in zip(terms(a), terms(b)):
            if not x.eq(y):
                E.oblige_only(s, x == y, 'frame: %s unchanged' % lv, f['loc'], kind='frame')
    for r, v in pre.store.items():
        if r.startswith('global:'):
            continue
        if r in s.store:
            walk(Lv(r), v, s.store[r])


def terms(v):
    if isinstance(v, ExprRef):
        return [v]
    if isinstance(v, VSet):
        return [v.a]
    if isinstance(v, VMap):
        return [v.dom] + [v.comps[p] for p in sorted(v.comps)]
    if isinstance(v, VVec):
        return [v.n] + [v.comps[p] for p in sorted(v.comps)]
    if isinstance(v, VOpt):
        return [v.has] + terms(v.v)
    if isinstance(v, VStruct):
        return [t for k in v.fields for t in terms(v.fields[k])]
    return []
