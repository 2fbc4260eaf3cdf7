"""Forward symbolic execution of the extracted functions, producing verification conditions.

Calls to functions with a contract use the contract; other functions of the repository are inlined;
library functions have assumed models (lib.py); anything else raises Break."""
import os, sys, time
from fractions import Fraction
from z3 import *
from .theory import *
from .values import *
from .ctypes_ import Types, Ty, Break, targs
from .solve import Prover, symbols

MAXDEPTH = 60


class Ob:
    def __init__(self, fn, name, facts, goal, tags, loc, kind):
        self.fn, self.name, self.facts, self.goal, self.tags, self.loc, self.kind = fn, name, facts, goal, tags, loc, kind
        self.status = None


def quantified(f):
    st, seen = [f], set()
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if is_quantifier(x):
            return True
        st.extend(x.children())
    return False


_qcache = {}


def is_q(f):
    k = f.get_id()
    r = _qcache.get(k)
    if r is None or not r[1].eq(f):
        r = (quantified(f), f)
        _qcache[k] = r
    return r[0]


class St:
    """One execution path."""
    def __init__(self):
        self.store, self.pc, self.env, self.this = {}, [], {}, None
        self.known = set()
        self.ghostil = {}

    def copy(self):
        s = St()
        s.store, s.pc, s.env, s.this = dict(self.store), list(self.pc), dict(self.env), self.this
        s.known = set(self.known)
        s.ghostil = dict(self.ghostil)
        return s

    def assume(self, *fs):
        for f in fs:
            if isinstance(f, (list, tuple)):
                self.assume(*f)
                continue
            if f is True or (isinstance(f, ExprRef) and is_true(f)):
                continue
            k = f.get_id() if not isinstance(f, bool) else f
            if k in self.known and any(x.eq(f) for x in self.pc if x.get_id() == k):
                continue
            self.known.add(k)
            self.pc.append(BoolVal(f) if isinstance(f, bool) else f)


def has_ite(e):
    todo, seen = [e], set()
    while todo:
        x = todo.pop()
        if x.get_id() in seen or not is_app(x):
            continue
        seen.add(x.get_id())
        if x.decl().kind() in (Z3_OP_ITE, Z3_OP_AND, Z3_OP_OR, Z3_OP_NOT, Z3_OP_EQ, Z3_OP_IMPLIES, Z3_OP_LE, Z3_OP_GE, Z3_OP_LT, Z3_OP_GT):
            return True
        todo.extend(x.children())
    return False


class Engine:
    def __init__(self, data, contracts=None, lib=None, prover=None, verbose=False):
        self.data = data
        self.fns = data['functions']
        self.T = Types(data)
        self.contracts = contracts or {}
        self.lib = lib
        self.prover = prover or Prover()
        self.obs = []
        self.quiet = 0           # >0: discovery / Houdini exploration, obligations are not recorded
        self.writes = None       # recorder of written places
        self.cur = '?'
        self.depth = 0
        self.hooks = {}          # class or callee name -> handler (callbacks of the user)
        self.loop_pool = None    # candidate invariants
        self.tags = set()
        self.order = True
        self.verbose = verbose
        self.callstack = []
        self.loopinfo = []
        self.occ, self.ctx, self.loopcache = [{}], None, {}
        self.lostguesses, self.gensteps, self.start = {}, {}, None
        self.assumed_models = set()
        self.inlined = set()
        self.used_contracts = set()
        self.hints = None
        self.prop = None         # property being decided (None: all)
        self.safety = True       # record obligations of memory safety and of asserts
        self.roottypes = {}
        self.discovering = False
        self.vacuity = []

    def facts(self, st):
        return list(st.pc) + (self.hints(self, st) if self.hints else [])

    def type_of(self, st, lv):
        ty = self.roottypes.get(lv.root)
        for e in lv.path:
            if ty is None:
                return None
            if e[0] == 'f':
                if ty.k != 'struct':
                    return None
                t = dict(ty.fields).get(e[1])
                ty = self.T.get(t) if t else None
            elif e[0] in ('k', 'i', 'o'):
                ty = self.T.get(ty.el) if ty.el else None
            else:
                return None
        return ty

    # ---------- obligations ----------------------------------------------------------------------
    def oblige(self, st, goal, name, loc='', tags=None, kind='safety'):
        if isinstance(goal, bool):
            goal = BoolVal(goal)
        if not self.quiet and (self.safety or kind not in ('safety', 'assert')):
            g = simplify(goal) if not is_q(goal) else goal
            if not is_true(g):
                facts = list(st.pc)
                if self.hints:
                    facts += self.hints(self, st)
                self.obs.append(Ob(self.cur, name, facts, goal, set(tags or ()) | set(self.tags), loc, kind))
            else:
                self.obs.append(Ob(self.cur, name, [], BoolVal(True), set(tags or ()) | set(self.tags), loc, kind))
        st.assume(goal)

    def oblige_only(self, st, goal, name, loc='', tags=None, kind='post'):
        s = st.copy()
        self.oblige(s, goal, name, loc, tags, kind)

    def num(self, v):
        if isinstance(v, VRaw):
            x = simplify(Sum([b * 256 ** i for i, b in enumerate(v.bytes)]))
            h = 2 ** (8 * len(v.bytes) - 1)
            return If(x >= h, x - 2 * h, x) if v.sg else x
        return v

    def quick(self, st, f, ms=200):
        """Is f entailed by the quantifier-free facts of the path?"""
        if isinstance(f, bool):
            return f
        f = simplify(f)
        if is_true(f):
            return True
        if is_false(f) :
            pass
        s = Solver()
        s.set('rlimit', 3000 * ms)
        s.set('timeout', 100 * ms)
        for x in st.pc:
            if not is_q(x):
                s.add(x)
        s.add(Not(f))
        return s.check() == unsat

    def feasible(self, st, ms=300):
        s = Solver()
        s.set('timeout', 100 * ms)
        s.set('rlimit', 20000 if self.discovering else 100000)
        s.set('smt.auto_config', False)
        s.set('smt.mbqi', False)
        for x in st.pc:
            s.add(x)
        return s.check() != unsat

    # ---------- types, leaves --------------------------------------------------------------------
    def leaves(self, ty):
        """[(path, sort, ty)] of a type that can be stored in an array."""
        k = ty.k
        if k == 'int':
            return [('', I, ty)]
        if k == 'bool':
            return [('', B, ty)]
        if k == 'real':
            return [('', RealSort(), ty)]
        if k == 'set':
            return [('', SetS, ty)]
        if k in ('ptr', 'iter'):
            return [('', I, ty)]
        if k == 'opt':
            return [('has', B, Ty('bool'))] + [('v.' + p, s, t) for p, s, t in self.leaves(self.T.get(ty.el))]
        if k in ('vec', 'list'):
            return [('n', I, Ty('int', w=64, sg=False))] + [('a.' + p, ArraySort(I, s), None) for p, s, t in self.leaves(self.T.get(ty.el))]
        if k == 'struct':
            out = []
            for f, t in ty.fields:
                for p, s, tt in self.leaves(self.T.get(t)):
                    out.append((f + '.' + p, s, tt))
            return out
        if k in ('opaque', 'func', 'closure', 'void', 'fnptr'):
            return []
        raise Break('type not storable: %s' % ty.name)

    def flatten(self, v, ty):
        k = ty.k
        if k in ('int', 'bool', 'real'):
            return {'': v}
        if k == 'set':
            return {'': v.a}
        if k == 'iter':
            if not isinstance(v, VIter) or v.kind != 'map':
                raise Break('only map iterators can be stored')
            return {'': v.pos}
        if k == 'ptr':
            if isinstance(v, VPtr) and v.lv is not None and v.lv.path and v.lv.path[-1][0] == 'k':
                return {'': v.lv.path[-1][1]}
            raise Break('pointer stored in a container does not designate a map element')
        if k == 'opt':
            d = {'has': v.has}
            d.update(('v.' + p, x) for p, x in self.flatten(v.v, self.T.get(ty.el)).items())
            return d
        if k in ('vec', 'list'):
            d = {'n': v.n}
            d.update(('a.' + p, x) for p, x in v.comps.items())
            return d
        if k == 'struct':
            d = {}
            for f, t in ty.fields:
                for p, x in self.flatten(v.fields[f], self.T.get(t)).items():
                    d[f + '.' + p] = x
            return d
        return {}

    def unflatten(self, d, ty, st):
        k = ty.k
        if k in ('int', 'bool', 'real'):
            return d['']
        if k == 'set':
            return VSet(ty, d[''])
        if k == 'iter':
            return VIter('map', self.region(st, ty), pos=d[''], end=BoolVal(False))
        if k == 'ptr':
            return VPtr(self.region(st, ty).add('k', d['']))
        if k == 'opt':
            return VOpt(ty, d['has'], self.unflatten({p[2:]: x for p, x in d.items() if p.startswith('v.')}, self.T.get(ty.el), st))
        if k in ('vec', 'list'):
            return VVec(ty, d['n'], {p[2:]: x for p, x in d.items() if p.startswith('a.')})
        if k == 'struct':
            return VStruct(ty, {f: self.unflatten({p[len(f) + 1:]: x for p, x in d.items() if p.startswith(f + '.')}, self.T.get(t), st) for f, t in ty.fields})
        return VOpaque(ty.name)

    def region(self, st, ty):
        """The map a stored pointer or iterator points into, found by its element type."""
        if st.this is None:
            raise Break('pointer outside an object')
        obj = self.read(st, st.this)
        name = ty.el if ty.k == 'ptr' else ty.name
        for f, t in obj.ty.fields:
            tt = self.T.get(t)
            if tt.k == 'map' and self.T.get(tt.el).k == 'struct':
                if (ty.k == 'ptr' and self.T.strip(tt.el) == self.T.strip(name)) or (ty.k == 'iter' and self.T.strip(tt.el) in name):
                    return st.this.f(f)
        raise Break('no region for %s' % ty.name)

    def in_range(self, v, ty):
        if ty.k != 'int':
            return []
        lo, hi = (-(2 ** (ty.w - 1)), 2 ** (ty.w - 1)) if ty.sg else (0, 2 ** ty.w)
        return [v >= lo, v < hi]

    def fresh(self, st, ty, name):
        """An arbitrary value of a type."""
        if isinstance(ty, str):
            ty = self.T.get(ty)
        k = ty.k
        if k == 'map':
            vt = self.T.get(ty.el)
            return VMap(ty, fconst(name, SetS), {p: fconst(name + '.' + p, ArraySort(I, s)) for p, s, t in self.leaves(vt)})
        if k == 'struct':
            return VStruct(ty, {f: self.fresh(st, t, name + '.' + f) for f, t in ty.fields})
        if k == 'ptr':
            raise Break('arbitrary pointer ' + ty.name)
        if k in ('opaque', 'func', 'closure', 'void', 'fnptr', 'iter', 'ilist'):
            return VOpaque(ty.name, name)
        if k == 'carray':
            et = self.T.get(ty.el)
            return VVec(ty, IntVal(ty.w), {p: fconst(name + '.' + p, ArraySort(I, s)) for p, s, t in self.leaves(et)})
        d = {}
        for p, s, t in self.leaves(ty):
            c = fconst(name + ('.' + p if p else ''), s)
            d[p] = c
            if t is not None and t.k == 'int':
                st.assume(self.in_range(c, t))
            if (p == 'n' or p.endswith('.n')) and s == I:
                st.assume(c < 2 ** 48, c >= 0)
        v = self.unflatten(d, ty, st) if k not in ('ptr', 'iter') else None
        return v

    # ---------- store ----------------------------------------------------------------------------
    def read(self, st, lv):
        if lv.root not in st.store:
            raise Break('unknown object ' + lv.root)
        return self.get(st, st.store[lv.root], lv.path)

    def get(self, st, v, path):
        for e in path:
            if e[0] == 'f':
                if isinstance(v, VStruct):
                    if e[1] not in v.fields:
                        raise Break('no field %s' % e[1])
                    v = v.fields[e[1]]
                    if isinstance(v, Lv):      # reference member
                        v = self.read(st, v)
                else:
                    raise Break('field %s of %r' % (e[1], v))
            elif e[0] == 'k':
                if not isinstance(v, VMap):
                    raise Break('key of %r' % v)
                vt = self.T.get(v.ty.el)
                self.live(st, v, e[1])
                d = {p: Select(a, e[1]) for p, a in v.comps.items()}
                self.range_leaves(st, d, vt)
                v = self.unflatten(d, vt, st)
            elif e[0] == 'e':
                vt = self.T.get(v.ty.el)
                self.live(st, v, e[1])
                d = {p: Select(a, e[1]) for p, a in v.comps.items()}
                self.range_leaves(st, d, vt)
                pt = Ty('struct', name='pair', fields=[('first', 'unsigned int'), ('second', v.ty.el)])
                v = VStruct(pt, {'first': e[1], 'second': self.unflatten(d, vt, st)})
            elif e[0] == 'i':
                if isinstance(v, VSet):
                    et = self.T.get(v.ty.el)
                    x = at(v.a, e[1])
                    if et.k == 'iter':
                        v = VIter('map', self.region(st, et), pos=x, end=BoolVal(False))
                    else:
                        st.assume(self.in_range(x, et) if et.k == 'int' else [])
                        v = x
                    continue
                if not isinstance(v, VVec):
                    raise Break('index of %r' % v)
                et = self.T.get(v.ty.el)
                d = {p: Select(a, e[1]) for p, a in v.comps.items()}
                self.range_leaves(st, d, et)
                v = self.unflatten(d, et, st)
            elif e[0] == 'o':
                v = v.v
            else:
                raise Break('path %r' % (e,))
        return v

    spec = 0
    fin = False
    single = False
    forget = False
    imul = False
    dims = frozenset()

    def live(self, st, m, k):
        if self.spec or self.quiet:
            return
        g = m.dom[k]
        if g.get_id() in st.known and any(x.eq(g) for x in st.pc):
            return
        self.oblige(st, g, 'the element used is still in its container', '', kind='safety')

    def range_leaves(self, st, d, ty):
        for p, s, t in self.leaves(ty):
            if t is not None and t.k == 'int':
                st.assume(self.in_range(d[p], t))
                if (p == 'n' or p.endswith('.n')):
                    st.assume(d[p] < 2 ** 48)

    def write(self, st, lv, v):
        # follow reference members
        cur = st.store.get(lv.root)
        for n, e in enumerate(lv.path):
            if e[0] == 'f' and isinstance(cur, VStruct) and isinstance(cur.fields.get(e[1]), Lv):
                t = cur.fields[e[1]]
                rest = lv.path[n + 1:]
                return self.write(st, Lv(t.root, t.path + rest), v)
            if e[0] == 'f' and isinstance(cur, VStruct):
                cur = cur.fields.get(e[1])
            else:
                break
        if self.writes is not None:
            p = []
            for e in lv.path:
                if e[0] != 'f':
                    break
                p.append(e)
            self.writes.add((lv.root, tuple(p)))
        if not lv.path:
            st.store[lv.root] = v
            return
        st.store[lv.root] = self.put(st, st.store[lv.root], lv.path, v)

    def put(self, st, base, path, v):
        if not path:
            return v
        e, rest = path[0], path[1:]
        if e[0] == 'f':
            if not isinstance(base, VStruct):
                raise Break('write field of %r' % base)
            return base.set(e[1], self.put(st, base.fields.get(e[1]), rest, v))
        if e[0] == 'e':
            if rest and rest[0] == ('f', 'second'):
                return self.put(st, base, (('k', e[1]),) + rest[1:], v)
            raise Break('write to a map entry')
        if e[0] in ('k', 'i'):
            if not isinstance(base, (VMap, VVec)):
                raise Break('write element of %r' % base)
            et = self.T.get(base.ty.el)
            if rest:
                d = {p: Select(a, e[1]) for p, a in base.comps.items()}
                old = self.unflatten(d, et, st)
                nv = self.put(st, old, rest, v)
            else:
                nv = v
            comps = dict(base.comps)
            for p, x in self.flatten(nv, et).items():
                if x.eq(Select(base.comps[p], e[1])):
                    continue
                if has_ite(x):     # cannot occur in a pattern
                    y = fconst('el', x.sort())
                    st.assume(y == x)
                    x = y
                comps[p] = Store(base.comps[p], e[1], x)
            return VMap(base.ty, base.dom, comps) if e[0] == 'k' else VVec(base.ty, base.n, comps)
        if e[0] == 'o':
            return VOpt(base.ty, base.has, self.put(st, base.v, rest, v))
        raise Break('write path %r' % (e,))

    def alloc(self, st, v, name='t'):
        r = fresh_name('#' + name)
        st.store[r] = v
        return Lv(r)

    def val(self, st, slot):
        return self.read(st, slot) if isinstance(slot, Lv) else slot

    # ---------- functions --------------------------------------------------------------------------
    def find(self, qn, cls=None, params=None, pred=None):
        out = []
        for f in self.fns.values():
            if f['qn'] == qn and (cls is None or f.get('cls') == cls) and (params is None or [p['t'] for p in f['params']] == params) and (pred is None or pred(f)):
                out.append(f)
        return out

    def key(self, f):
        """Names under which a contract for this function may be registered."""
        n = f['qn']
        ps = [self.T.strip(p['t'] if isinstance(p, dict) else p) for p in f['params']]
        return n, n + '(' + ','.join(ps) + ')'

    def contract_for(self, f):
        a, b = self.key(f)
        c = self.contracts.get(b) or self.contracts.get(a)
        if c and c.cls and f.get('cls') not in c.cls:
            return None
        return c

    # ---------- calls --------------------------------------------------------------------------------
    def call_fn(self, st, f, this, args, loc):
        """args: slots. Yields (st, slot|Throw)."""
        c = self.contract_for(f)
        if c and not c.get('inline') and self.callstack != [] and c is not self.verifying_inline:
            try:
                yield from self.apply_contract(st, c, f, this, args, loc)
                return
            except Break as b:
                if c.get('strict'):
                    raise
                raise
        yield from self.inline(st, f, this, args, loc)

    verifying_inline = None

    def bind(self, st, f, args):
        env = {}
        for p, a in zip(f['params'], args):
            t = p['t']
            if self.T.isref(t):
                env[p['id']] = a if isinstance(a, Lv) else self.alloc(st, a, p['name'] or 'p')
            else:
                env[p['id']] = self.alloc(st, self.num(self.val(st, a)), p['name'] or 'p')
            self.roottypes.setdefault(env[p['id']].root, self.T.get(t))
        return env

    def inline(self, st, f, this, args, loc):
        if self.depth > MAXDEPTH or len([x for x in self.callstack if x == f['id']]) > 0:
            raise Break('recursion without a contract: ' + f['qn'])
        self.inlined.add(f['qn'])
        senv, sthis = st.env, st.this
        st.env = self.bind(st, f, args)
        st.this = this if this is not None else None
        self.callstack.append(f['id'])
        self.depth += 1
        res = []
        try:
            for s, o in self.run_body(st, f):
                s.env, s.this = senv, sthis
                res.append((s, o))
        finally:
            self.callstack.pop()
            self.depth -= 1
        for s, o in res:
            s.env = dict(senv)
            yield s, o

    def run_body(self, st, f):
        """Executes the body in the current frame. Yields (st, result|Throw)."""
        isref = self.T.isref(f['ret'])
        starts = [(st, None)]
        if 'inits' in f:
            starts = list(self.run_inits(st, f))
        for s, o in starts:
            if isinstance(o, Throw):
                yield s, o
                continue
            for s2, out in self.ex(s, f['body']):
                if out is None:
                    yield s2, VOID
                elif out[0] == 'ret':
                    v = out[1]
                    if not isref and isinstance(v, Lv):
                        v = self.read(s2, v)
                    yield s2, v
                elif out[0] == 'throw':
                    if f.get('noexcept'):
                        self.oblige(s2, BoolVal(False), 'no exception (%s) leaves noexcept %s' % (out[1].ty, f['qn']), f['loc'], kind='noexcept')
                        continue
                    yield s2, out[1]
                else:
                    raise Break('control flow ' + out[0])

    def run_inits(self, st, f):
        states = [(st, None)]
        for i in f['inits']:
            nxt = []
            for s, o in states:
                if isinstance(o, Throw):
                    nxt.append((s, o))
                    continue
                if 'base' in i:
                    nxt.append((s, None))
                    continue
                if i.get('deleg'):
                    for s2, v in self.ev(s, i['e'], target=s.this):
                        if isinstance(v, Throw):
                            nxt.append((s2, v))
                        else:
                            self.write(s2, s2.this, self.val(s2, v))
                            nxt.append((s2, None))
                    continue
                obj = self.read(s, s.this)
                ft = dict(obj.ty.fields).get(i['field'])
                for s2, v in self.ev(s, i['e'], target=s.this.f(i['field'])):
                    if isinstance(v, Throw):
                        nxt.append((s2, v))
                        continue
                    if self.T.isref(ft or ''):
                        if not isinstance(v, Lv):
                            v = self.alloc(s2, v)
                        s2.store[s2.this.root] = self.put_raw(s2.store[s2.this.root], s2.this.path + (('f', i['field']),), v)
                    else:
                        self.write(s2, s2.this.f(i['field']), self.val(s2, v))
                    nxt.append((s2, None))
            states = nxt
        return states

    def put_raw(self, base, path, v):
        if not path:
            return v
        return base.set(path[0][1], self.put_raw(base.fields.get(path[0][1]), path[1:], v))

    def blank(self, st, ty, name):
        """An object under construction: fields unset."""
        return VStruct(ty, {f: (self.fresh(st, t, name + '.' + f) if self.T.get(t).k not in ('ptr',) and not self.T.isref(t) else VOpaque('uninit')) for f, t in ty.fields})

    def construct(self, st, f, ty, args, loc, target=None):
        """Runs a constructor of the repository; yields (st, value|Throw)."""
        lv = self.alloc(st, self.blank(st, ty, 'new'), 'new')
        c = self.contract_for(f)
        for s, r in (self.apply_contract(st, c, f, lv, args, loc) if c and not c.get('inline') and self.callstack else self.inline(st, f, lv, args, loc)):
            if isinstance(r, Throw):
                yield s, r
            else:
                yield s, self.read(s, lv)

    # ---------- contracts ------------------------------------------------------------------------------
    def apply_contract(self, st, c, f, this, args, loc):
        from .verify import apply_contract
        yield from apply_contract(self, st, c, f, this, args, loc)

    # ---------- statements -------------------------------------------------------------------------------
    # yields (st, None | ('ret', v) | ('brk',) | ('cont',) | ('throw', Throw))
    def ex(self, st, n):
        if n is None:
            yield st, None
            return
        k = n['k']
        if k == 'expr':
            for s, v in self.ev(st, n['e']):
                yield s, (('throw', v) if isinstance(v, Throw) else None)
        elif k == 'block':
            yield from self.ex_seq(st, n['body'], 0)
        elif k == 'decl':
            yield from self.ex_decl(st, n['vars'], 0)
        elif k == 'if':
            if n.get('init') or n.get('var'):
                raise Break('if with initialisation')
            for s, b in self.cond(st, n['cond']):
                if isinstance(b, Throw):
                    yield s, ('throw', b)
                else:
                    yield from self.ex(s, n['then'] if b else n['else'])
        elif k == 'return':
            if n['e'] is None:
                yield st, ('ret', VOID)
            else:
                for s, v in self.ev(st, n['e']):
                    yield s, (('throw', v) if isinstance(v, Throw) else ('ret', v))
        elif k == 'break':
            yield st, ('brk',)
        elif k == 'continue':
            yield st, ('cont',)
        elif k in ('for', 'while', 'do', 'rangefor'):
            yield from self.ex_loop(st, n)
        elif k == 'switch':
            yield from self.ex_switch(st, n)
        elif k == 'try':
            yield from self.ex_try(st, n)
        elif k in ('case', 'default'):
            yield from self.ex(st, n['sub'])
        else:
            raise Break('statement %s at %s' % (n.get('what', k), n.get('loc')))

    def ex_seq(self, st, body, i):
        if i == len(body):
            yield st, None
            return
        for s, o in self.ex(st, body[i]):
            if o is not None:
                yield s, o
            else:
                yield from self.ex_seq(s, body, i + 1)

    def ex_decl(self, st, vs, i):
        if i == len(vs):
            yield st, None
            return
        v = vs[i]
        for s, x in self.declare(st, v):
            if isinstance(x, Throw):
                yield s, ('throw', x)
            else:
                yield from self.ex_decl(s, vs, i + 1)

    def declare(self, st, v):
        t = self.T.get(v['t'])
        if v.get('init') is None:
            st.env[v['id']] = self.alloc(st, self.fresh(st, t, v['name']) if t.k != 'ptr' else VOpaque('uninit'), v['name'])
            self.roottypes[st.env[v['id']].root] = t
            yield st, None
            return
        if self.T.isref(v['t']):
            for s, x in self.ev(st, v['init']):
                if isinstance(x, Throw):
                    yield s, x
                    continue
                s.env[v['id']] = x if isinstance(x, Lv) else self.alloc(s, x, v['name'])
                yield s, None
            return
        for s, x in self.ev(st, v['init']):
            if isinstance(x, Throw):
                yield s, x
                continue
            s.env[v['id']] = self.alloc(s, self.val(s, x), v['name'])
            self.roottypes[s.env[v['id']].root] = t
            if self.writes is not None:
                self.writes.add((s.env[v['id']].root, ()))
            yield s, None

    def ex_switch(self, st, n):
        body = n['body']['body'] if n['body']['k'] == 'block' else [n['body']]
        labels = []
        flat = []
        for b in body:
            while b and b['k'] in ('case', 'default'):
                labels.append((b, len(flat)))
                b = b['sub']
            flat.append(b)
        for s, v in self.ev(st, n['cond']):
            if isinstance(v, Throw):
                yield s, ('throw', v)
                continue
            v = self.val(s, v)
            rest = s
            dflt = None
            branches = []
            for l, pos in labels:
                if l['k'] == 'default':
                    dflt = pos
                    continue
                c = self.const(l['v'])
                b = rest.copy()
                b.assume(v == c)
                branches.append((b, pos))
                rest.assume(v != c)
            branches.append((rest, dflt if dflt is not None else len(flat)))
            for b, pos in branches:
                if not self.feasible(b):
                    continue
                for s2, o in self.ex_seq(b, flat, pos):
                    yield s2, (None if o == ('brk',) else o)

    def const(self, n):
        while n['k'] == 'cast':
            n = n['e']
        if n['k'] == 'int':
            return IntVal(int(n['v']))
        raise Break('constant')

    def ex_try(self, st, n):
        for s, o in self.ex(st, n['body']):
            if o is None or o[0] != 'throw':
                yield s, o
                continue
            t = o[1]
            for h in n['handlers']:
                if self.catches(h['t'], t.ty):
                    if h.get('var'):
                        s.env[h['var']['id']] = self.alloc(s, t.val if t.val is not None else VOpaque(t.ty), 'exc')
                    yield from self.ex(s, h['body'])
                    break
            else:
                yield s, o

    def catches(self, h, t):
        if h is None or h == t:
            return True
        if t == '*unknown':
            return False
        known = {'ntc::packet_type_error': ['std::exception'], 'ntc::overflow_error': ['std::exception'],
                 'std::bad_alloc': ['std::exception'], 'std::exception': [], 'std::runtime_error': ['std::exception']}
        seen, todo = set(), [t]
        while todo:
            x = todo.pop()
            if x == h:
                return True
            r = self.T.records.get(x)
            todo += (r['bases'] if r else known.get(x, []))
        return False

    # ---------- conditions -----------------------------------------------------------------------------
    def cond(self, st, n):
        """Yields (st, python bool | Throw)."""
        k = n['k']
        if k == 'bin' and n['op'] in ('&&', '||'):
            for s, b in self.cond(st, n['l']):
                if isinstance(b, Throw):
                    yield s, b
                elif b == (n['op'] == '||'):
                    yield s, b
                else:
                    yield from self.cond(s, n['r'])
            return
        if k == 'un' and n['op'] == '!':
            for s, b in self.cond(st, n['e']):
                yield s, (b if isinstance(b, Throw) else not b)
            return
        if k == 'bool':
            yield st, bool(n['v'])
            return
        for s, v in self.ev(st, n):
            if isinstance(v, Throw):
                yield s, v
                continue
            yield from self.split(s, self.truth(s, self.val(s, v)))

    def truth(self, st, v):
        if isinstance(v, VPtr):
            return Not(v.null)
        if isinstance(v, VOpt):
            return v.has
        if not isinstance(v, ExprRef):
            raise Break('condition %r' % v)
        if is_bool(v):
            return v
        return v != 0

    def split(self, st, b):
        b = simplify(b) if not is_q(b) else b
        if is_true(b):
            yield st, True
            return
        if is_false(b):
            yield st, False
            return
        f = st.copy()
        st.assume(b)
        if self.feasible(st):
            yield st, True
        f.assume(Not(b))
        if self.feasible(f):
            yield f, False

    # ---------- expressions ------------------------------------------------------------------------------
    # yields (st, slot | Throw); slot is an Lv for glvalues, else a value
    def ev(self, st, n, target=None):
        k = n['k']
        m = getattr(self, 'ev_' + k, None)
        if m is None:
            raise Break('expression %s at %s' % (n.get('what', k), n.get('loc')))
        if k in ('ctor',):
            yield from m(st, n, target)
        else:
            yield from m(st, n)

    def evs(self, st, ns):
        """Evaluates a list of expressions in order; yields (st, [slots] | Throw)."""
        if not ns:
            yield st, []
            return
        for s, v in self.ev(st, ns[0]):
            if isinstance(v, Throw):
                yield s, v
                continue
            for s2, vs in self.evs(s, ns[1:]):
                yield s2, (vs if isinstance(vs, Throw) else [v] + vs)

    def ev_int(self, st, n):
        yield st, IntVal(int(n['v']))

    def ev_bool(self, st, n):
        yield st, BoolVal(bool(n['v']))

    def ev_float(self, st, n):
        yield st, RealVal(str(Fraction(float(n['v']))))

    def ev_str(self, st, n):
        yield st, VOpaque('string')

    def ev_null(self, st, n):
        yield st, VPtr(None)

    def ev_zero(self, st, n):
        yield st, self.zero(st, self.T.get(n['t']))

    def zero(self, st, t):
        if t.k == 'int':
            return IntVal(0)
        if t.k == 'bool':
            return BoolVal(False)
        if t.k == 'ptr':
            return VPtr(None)
        if t.k == 'real':
            return RealVal(0)
        if t.k == 'void':
            return VOID
        if t.k == 'struct':
            return VStruct(t, {f: self.zero(st, self.T.get(x)) for f, x in t.fields})
        if t.k in ('opaque', 'func'):
            return VOpaque(t.name)
        if t.k == 'set':
            return VSet(t, EMPTY)
        if t.k in ('vec', 'list'):
            return VVec(t, IntVal(0), {p: K(I, self.zero_sort(s)) for p, s, _ in self.leaves(self.T.get(t.el))})
        if t.k == 'map':
            return VMap(t, EMPTY, {p: fconst('e.' + p, ArraySort(I, s)) for p, s, _ in self.leaves(self.T.get(t.el))})
        if t.k == 'opt':
            return VOpt(t, BoolVal(False), self.zero(st, self.T.get(t.el)))
        raise Break('zero of ' + str(t.name))

    def zero_sort(self, s):
        if s == I:
            return IntVal(0)
        if s == B:
            return BoolVal(False)
        if s == SetS:
            return EMPTY
        return fconst('z', s)

    def ev_var(self, st, n):
        if n.get('global'):
            yield st, self.global_(st, n)
            return
        if n['id'] not in st.env:
            raise Break('variable %s' % n['name'])
        yield st, st.env[n['id']]

    def global_(self, st, n):
        r = 'global:' + n['global']
        if r not in st.store:
            st.store[r] = VOpaque(n['global'])
        return Lv(r)

    def ev_fref(self, st, n):
        yield st, VFn(n['fn'])

    def ev_this(self, st, n):
        yield st, VPtr(st.this)

    def ev_temp(self, st, n):
        for s, v in self.ev(st, n['e']):
            if isinstance(v, (Throw, Lv)):
                yield s, v
            else:
                yield s, self.alloc(s, v, 'tmp')

    def deref(self, st, p, loc=''):
        if isinstance(p, VPtr):
            if not is_false(p.null):
                self.oblige(st, Not(p.null), 'pointer is not null', loc)
            if p.lv is None:
                raise Break('null dereference')
            if p.off is not None:
                if p.size is not None:
                    raise Break('byte access to a scalar')
                v = self.read(st, p.lv)
                if isinstance(v, VVec):
                    self.oblige(st, And(p.off >= 0, p.off < v.n), 'access within the buffer', loc)
                return p.lv.add('i', p.off)
            return p.lv
        if isinstance(p, VOpaque) and p.name == 'string':
            raise Break('string')
        raise Break('dereference of %r' % p)

    def ev_mem(self, st, n):
        for s, b in self.ev(st, n['base']):
            if isinstance(b, Throw):
                yield s, b
                continue
            if n['arrow']:
                b = self.deref(s, self.val(s, b), n['loc'])
            if isinstance(b, Lv):
                yield s, b.f(n['field'])
            else:
                yield s, b.fields[n['field']]

    def ev_index(self, st, n):
        for s, vs in self.evs(st, [n['base'], n['i']]):
            if isinstance(vs, Throw):
                yield s, vs
                continue
            p, i = self.val(s, vs[0]), self.val(s, vs[1])
            if isinstance(p, VPtr):
                q = VPtr(p.lv, (p.off if p.off is not None else 0) + i, p.null, p.size)
                yield s, self.deref(s, q, n['loc'])
            else:
                raise Break('subscript of %r' % p)

    def ev_un(self, st, n):
        op = n['op']
        if op == '!':
            for s, b in self.cond(st, n['e']):
                yield s, (b if isinstance(b, Throw) else BoolVal(b))
            return
        for s, v in self.ev(st, n['e']):
            if isinstance(v, Throw):
                yield s, v
                continue
            if op == '*':
                yield s, self.deref(s, self.val(s, v), n['loc'])
            elif op == '&':
                if v.path and v.path[-1][0] == 'i' and isinstance(self.read(s, Lv(v.root, v.path[:-1])), VVec):
                    yield s, VPtr(Lv(v.root, v.path[:-1]), v.path[-1][1])
                else:
                    # &entry.second designates the mapped value
                    yield s, VPtr(self.canon(v))
            elif op in ('++', '--'):
                old = self.read(s, v)
                t = self.T.get(n['t'])
                if isinstance(old, VPtr):
                    new = VPtr(old.lv, old.off + (1 if op == '++' else -1), old.null, old.size)
                elif is_int(old) if isinstance(old, ExprRef) else False:
                    new = self.arith(s, op[0], old, IntVal(1), t, n['loc'])
                else:
                    raise Break('++ on %r' % old)
                self.write(s, v, new)
                yield s, (old if n['post'] else v)
            elif op == '-':
                x = self.val(s, v)
                t = self.T.get(n['t'])
                yield s, (-x if t.k == 'real' else self.wrap(s, -x, t))
            elif op == '+':
                yield s, self.val(s, v)
            elif op == '~':
                x = self.num(self.val(s, v))
                t = self.T.get(n['t'])
                yield s, (simplify(-x - 1) if t.sg else simplify(2 ** t.w - 1 - x))
            else:
                raise Break('unary ' + op)

    def canon(self, lv):
        p = []
        i = 0
        path = lv.path
        while i < len(path):
            if path[i][0] == 'e' and i + 1 < len(path) and path[i + 1] == ('f', 'second'):
                p.append(('k', path[i][1]))
                i += 2
            else:
                p.append(path[i])
                i += 1
        return Lv(lv.root, p)

    def wrap(self, st, v, t, loc=''):
        if t.k != 'int':
            return v
        v = simplify(v)
        if is_int_value(v):
            x = v.as_long()
            if t.sg:
                x = (x + 2 ** (t.w - 1)) % 2 ** t.w - 2 ** (t.w - 1)
            else:
                x %= 2 ** t.w
            return IntVal(x)
        lo, hi = (-(2 ** (t.w - 1)), 2 ** (t.w - 1)) if t.sg else (0, 2 ** t.w)
        if self.quick(st, And(v >= lo, v < hi)):
            return v
        if t.sg:
            self.oblige(st, And(v >= lo, v < hi), 'no signed overflow', loc)
            return v
        return None

    def product(self, st, a, b):
        """Products of two variables: an uninterpreted function, dimension first (axioms: theory.imul_axioms)."""
        if is_int_value(simplify(a)) or is_int_value(simplify(b)):
            return a * b
        if b.get_id() in self.dims or (is_app(b) and b.decl().eq(card)):
            a, b = b, a
        e = imul(a, b)
        st.assume(Implies(And(a >= 0, b >= 0, a < 2 ** 32, b < 2 ** 32), And(e >= 0, e < 2 ** 64)))
        if not a.eq(b):
            st.assume(Implies(And(b >= 0, b < a), e + a <= imul(a, a)))
        return e

    def arith(self, st, op, a, b, t, loc=''):
        if t.k == 'real':
            e = {'+': lambda: a + b, '-': lambda: a - b, '*': lambda: a * b, '/': lambda: a / b}[op]()
            r = fconst('fp', RealSort())
            # IEEE-754 double: the result of each operation has a relative error of at most 2^-53
            eps = RealVal('1/9007199254740992')
            if op == '/':
                e = fconst('quot', RealSort())
                st.assume(Implies(b != 0, And(e * b == a, Implies(b > 0, And(Implies(a >= 0, e >= 0), Implies(a <= 0, e <= 0), Implies(a > 0, e > 0))))))
            st.assume(Or(And(e >= 0, r >= e * (1 - eps), r <= e * (1 + eps)), And(e <= 0, r <= e * (1 - eps), r >= e * (1 + eps))))
            # ... and rounding does not cross an integer (below 2^53)
            k = ToInt(e)
            st.assume(Implies(And(e < 2 ** 53, e > -2 ** 53), And(r >= ToReal(k), r <= ToReal(k + 1), Implies(e == ToReal(k), r == e))))
            return r
        M = 2 ** t.w
        if op in '+-*':
            e = self.product(st, a, b) if op == '*' and self.imul else {'+': a + b, '-': a - b, '*': a * b}[op]
            w = self.wrap(st, e, t, loc)
            if w is not None:
                return w
            if op == '+':
                return If(e < M, e, e - M)
            if op == '-':
                return If(e >= 0, e, e + M)
            return e % M
        if op in '/%':
            self.oblige(st, b != 0, 'divisor is not zero', loc)
            if t.sg:
                self.oblige(st, And(a >= 0, b > 0), 'non-negative operands of signed %s' % op, loc)
            if op == '%' and not is_int_value(b):
                return a % b
            return a / b if op == '/' else a % b
        if op == '<<':
            if is_int_value(a) and a.as_long() == 1:
                if is_int_value(simplify(b)):
                    return IntVal(2 ** simplify(b).as_long() % M)
                r = pow2(b)
                st.assume(*[Implies(b == k, r == 2 ** k) for k in range(t.w - 1 if t.sg else t.w)])
                self.oblige(st, And(b >= 0, b < t.w), 'shift count is smaller than the width', loc)
                return r
            if is_int_value(b):
                return (a * 2 ** b.as_long()) % M
        if op == '>>' and is_int_value(b):
            return a / (2 ** b.as_long())
        if op == '^':
            r = FromG(ToG(a) ^ ToG(b))
            if self.imul:
                st.assume(isx(toG(r), ToG(a), ToG(b)))
            st.assume(r >= 0, r < 2 ** 32, Implies(And(a < 65536, b < 65536), r < 65536), Implies(And(a < 256, b < 256), r < 256), Implies(And(a < 16, b < 16), r < 16))
            return r
        if op == '&':
            for x, y in ((a, b), (b, a)):
                if is_int_value(y):
                    # runs of ones of the mask (of the two's complement for negative operands)
                    m, lo, e = y.as_long() % 2 ** t.w, 0, IntVal(0)
                    if m == 0:
                        return IntVal(0)
                    while lo < t.w:
                        if not (m >> lo) & 1:
                            lo += 1
                            continue
                        hi = lo
                        while hi < t.w and (m >> hi) & 1:
                            hi += 1
                        q = x / 2 ** lo if lo else x
                        # for a non-negative x the highest bits need no cut
                        e = e + ((q % 2 ** (hi - lo)) * 2 ** lo if hi < t.w or t.sg else q * 2 ** lo)
                        lo = hi
                    if t.sg and (m >> (t.w - 1)) & 1:
                        e = If(e >= 2 ** (t.w - 1), e - 2 ** t.w, e)
                    return simplify(e)
            r = fint('band')
            st.assume(Implies(And(a >= 0, b >= 0), And(r >= 0, r <= a, r <= b)), Implies(And(a >= 0, a < 2 ** 32, b >= 0, b < 2 ** 32), toG(r) == toG(a) & toG(b)), self.in_range(r, t))
            return r
        if op == '|':
            for x, y in ((a, b), (b, a)):
                if is_int_value(y) and y.as_long() == 0:
                    return x
            r = fint('bor')
            st.assume(Implies(And(a >= 0, b >= 0), And(r >= a, r >= b, r <= a + b)), Implies(And(a >= 0, a < 2 ** 32, b >= 0, b < 2 ** 32), toG(r) == toG(a) | toG(b)), self.in_range(r, t))
            # disjoint fields
            for k in (8, 16, 24, 32):
                for x, y in ((a, b), (b, a)):
                    st.assume(Implies(And(x >= 0, x < 2 ** k, y >= 0, y % 2 ** k == 0), r == x + y))
            return r
        raise Break('operator ' + op)

    def ev_bin(self, st, n):
        op = n['op']
        if op in ('&&', '||'):
            for s, b in self.cond(st, n):
                yield s, (b if isinstance(b, Throw) else BoolVal(b))
            return
        for s, vs in self.evs(st, [n['l'], n['r']]):
            if isinstance(vs, Throw):
                yield s, vs
                continue
            if op == ',':
                yield s, vs[1]
                continue
            a, b = self.num(self.val(s, vs[0])), self.num(self.val(s, vs[1]))
            yield s, self.binop(s, op, a, b, n)

    def binop(self, s, op, a, b, n):
        t = self.T.get(n['t'])
        if isinstance(a, VPtr) or isinstance(b, VPtr):
            if op in '+-' and isinstance(a, VPtr) and isinstance(b, ExprRef):
                return VPtr(a.lv, (a.off if a.off is not None else IntVal(0)) + (b if op == '+' else -b), a.null, a.size)
            if op == '+' and isinstance(b, VPtr):
                return VPtr(b.lv, (b.off if b.off is not None else IntVal(0)) + a, b.null, b.size)
            if isinstance(a, VPtr) and isinstance(b, VPtr):
                if op == '-' and a.lv.same(b.lv):
                    return a.off - b.off
                if op in ('==', '!='):
                    if a.lv is None or b.lv is None:
                        r = And(a.null, b.null) if (a.lv is None and b.lv is None) else (a.null if b.lv is None else b.null)
                    elif a.lv.same(b.lv):
                        r = (a.off == b.off) if a.off is not None else BoolVal(True)
                    else:
                        raise Break('pointer comparison')
                    return r if op == '==' else Not(r)
                if op in ('<', '>', '<=', '>=') and a.lv.same(b.lv):
                    return {'<': a.off < b.off, '>': a.off > b.off, '<=': a.off <= b.off, '>=': a.off >= b.off}[op]
            raise Break('pointer arithmetic ' + op)
        if not (isinstance(a, ExprRef) and isinstance(b, ExprRef)):
            raise Break('operator %s on %r, %r' % (op, a, b))
        if op in ('==', '!=', '<', '>', '<=', '>='):
            if is_bool(a) != is_bool(b):
                a = If(a, IntVal(1), IntVal(0)) if is_bool(a) else a
                b = If(b, IntVal(1), IntVal(0)) if is_bool(b) else b
            return {'==': lambda: a == b, '!=': lambda: a != b, '<': lambda: a < b, '>': lambda: a > b, '<=': lambda: a <= b, '>=': lambda: a >= b}[op]()
        return self.arith(s, op, a, b, t, n.get('loc', ''))

    def ev_assign(self, st, n):
        for s, vs in self.evs(st, [n['r'], n['l']]):
            if isinstance(vs, Throw):
                yield s, vs
                continue
            self.write(s, vs[1], self.val(s, vs[0]))
            yield s, vs[1]

    def ev_cassign(self, st, n):
        for s, vs in self.evs(st, [n['r'], n['l']]):
            if isinstance(vs, Throw):
                yield s, vs
                continue
            old = self.read(s, vs[1])
            t = self.T.get(n['t'])
            r = self.val(s, vs[0])
            if isinstance(old, VPtr):
                new = self.binop(s, n['op'], old, r, n)
            else:
                new = self.arith(s, n['op'], old, r, self.T.get(n['ct']), n['loc'])
                new = self.convert(s, new, self.T.get(n['ct']), t, n['loc'])
            self.write(s, vs[1], new)
            yield s, vs[1]

    def convert(self, st, v, ft, t, loc):
        if t.k == 'int' and ft.k == 'int' and isinstance(v, ExprRef):
            if ft.w < t.w and (not ft.sg or t.sg) or (ft.w == t.w and ft.sg == t.sg):
                return v
            w = None
            lo, hi = (-(2 ** (t.w - 1)), 2 ** (t.w - 1)) if t.sg else (0, 2 ** t.w)
            vs = simplify(v)
            if is_int_value(vs):
                x = vs.as_long() % 2 ** t.w
                if t.sg and x >= 2 ** (t.w - 1):
                    x -= 2 ** t.w
                return IntVal(x)
            if self.quick(st, And(v >= lo, v < hi)):
                return v
            if t.sg:
                x = v % (2 ** t.w)
                return If(x >= 2 ** (t.w - 1), x - 2 ** t.w, x)
            return v % (2 ** t.w)
        return v

    def ev_cast(self, st, n):
        ck = n['ck']
        for s, v in self.ev(st, n['e']):
            if isinstance(v, Throw):
                yield s, v
                continue
            t = self.T.get(n['t'])
            ft = self.T.get(n['e']['t'])
            if ck == 'LValueToRValue':
                x = self.val(s, v)
                if isinstance(x, ExprRef) and t.k == 'int' and not is_int_value(x):
                    s.assume(self.in_range(x, t))
                if isinstance(x, VRaw):
                    x = VRaw(x.bytes, t.k == 'int' and t.sg)
                yield s, x
            elif ck in ('IntegralCast',):
                x = self.num(self.val(s, v))
                if is_bool(x):
                    x = If(x, IntVal(1), IntVal(0))
                yield s, self.convert(s, x, ft, t, n['loc'])
            elif ck == 'IntegralToBoolean':
                yield s, self.val(s, v) != 0
            elif ck == 'PointerToBoolean':
                x = self.val(s, v)
                yield s, (Not(x.null) if isinstance(x, VPtr) else BoolVal(True))
            elif ck == 'IntegralToFloating':
                yield s, ToReal(self.val(s, v))
            elif ck == 'FloatingToIntegral':
                x = self.val(s, v)
                i = fint('trunc')
                s.assume(Or(And(x >= 0, ToReal(i) <= x, x < ToReal(i) + 1), And(x < 0, x <= ToReal(i), ToReal(i) - 1 < x)))
                self.oblige(s, And(self.in_range(i, t)), 'double fits the integer type', n['loc'])
                yield s, i
            elif ck == 'FloatingCast':
                yield s, self.val(s, v)
            elif ck in ('DerivedToBase', 'UncheckedDerivedToBase', 'NoOp', 'UserDefinedConversion', 'ConstructorConversion'):
                yield s, v
            elif ck == 'ArrayToPointerDecay':
                x = self.val(s, v)
                yield s, (x if isinstance(x, VOpaque) else VPtr(v, IntVal(0)))
            elif ck == 'NullToPointer':
                yield s, VPtr(None)
            elif ck == 'ToVoid':
                yield s, VOID
            elif ck == 'BitCast':
                yield s, self.bitcast(s, self.val(s, v), n)
            elif ck == 'PointerToIntegral':
                p = self.val(s, v)
                if not isinstance(p, VPtr) or p.lv is None:
                    raise Break('pointer to integer')
                yield s, self.address(s, p)
            else:
                raise Break('cast %s at %s' % (ck, n['loc']))

    def address(self, st, p):
        a = Int('addr!' + repr(p.lv))
        st.assume(a >= 0, a < 2 ** 63)
        v = self.read(st, p.lv)
        if isinstance(v, VVec):
            st.assume(a + v.n < 2 ** 64)
            if 'aligned_allocator' in (v.ty.name or '') and p.lv.path:
                st.assume(a % 16 == 0)   # the allocator's promise
        return a + (p.off if p.off is not None else 0)

    def bitcast(self, st, p, n):
        if not isinstance(p, VPtr) or p.lv is None:
            return p
        t = self.T.get(n['t'])
        et = self.T.get(t.el)
        ft = self.T.get(self.T.get(n['e']['t']).el)
        if et.k == 'int' and et.w == 8 and p.off is None:
            if ft.k == 'int':
                return VPtr(p.lv, IntVal(0), p.null, ft.w // 8)
        if et.k == 'int' and et.w > 8 and p.off is not None and ft.k == 'int' and ft.w == 8 and p.size is None:
            q = VPtr(p.lv, p.off, p.null)
            q.load = et.w // 8
            return q
        if et.k == 'void' or ft.k == 'void' or t.el == self.T.get(n['e']['t']).el:
            return p
        if et.k == 'int' and et.w == 8:
            return p
        raise Break('reinterpret_cast to %s' % n['t'])

    def ev_cond(self, st, n):
        for s, b in self.cond(st, n['c']):
            if isinstance(b, Throw):
                yield s, b
                continue
            for s2, v in self.ev(s, n['a'] if b else n['b']):
                if not n['lv'] and isinstance(v, Lv):
                    v = self.read(s2, v)
                yield s2, v

    def ev_throw(self, st, n):
        if n['e'] is None:
            raise Break('rethrow')
        for s, v in self.ev(st, n['e']):
            if isinstance(v, Throw):
                yield s, v
            else:
                yield s, Throw(n['et'], self.val(s, v))

    def ev_lambda(self, st, n):
        env = {}
        for c in n['caps']:
            if c.get('this'):
                continue
            if c['id'] in st.env:
                env[c['id']] = st.env[c['id']] if c.get('ref') else self.alloc(st, self.read(st, st.env[c['id']]), c['name'])
        yield st, VClosure(n, env, st.this)

    def call_closure(self, st, c, args, loc):
        senv, sthis = st.env, st.this
        st.env = dict(c.env)
        st.env.update(self.bind(st, {'params': c.node['params']}, args))
        st.this = c.this
        isref = self.T.isref(c.node['ret'])
        res = []
        for s, o in self.ex(st, c.node['body']):
            if o is None:
                r = VOID
            elif o[0] == 'ret':
                r = o[1] if isref or not isinstance(o[1], Lv) else self.read(s, o[1])
            elif o[0] == 'throw':
                r = o[1]
            else:
                raise Break('lambda')
            s.env, s.this = dict(senv), sthis
            res.append((s, r))
        yield from res

    def ev_ilist(self, st, n):
        for s, vs in self.evs(st, n['elems']):
            if isinstance(vs, Throw):
                yield s, vs
                continue
            t = self.T.get(n['t'])
            vals = [self.val(s, v) for v in vs]
            if t.k == 'struct':
                fs = dict(zip([f for f, _ in t.fields], vals))
                yield s, VStruct(t, fs)
            elif t.k in ('int', 'bool', 'ptr', 'real'):
                yield s, (vals[0] if vals else self.zero(s, t))
            else:
                yield s, VIList(vals)

    def ev_stdilist(self, st, n):
        for s, v in self.ev(st, n['e']):
            yield s, (v if isinstance(v, Throw) else self.val(s, v))

    def ev_new(self, st, n):
        if n['array']:
            for s, v in self.ev(st, n['size']):
                if isinstance(v, Throw):
                    yield s, v
                    continue
                v = self.val(s, v)
                et = self.T.get(n['at'])
                ty = Ty('vec', el=n['at'], name='new[]')
                lv = self.alloc(s, VVec(ty, v, {p: fconst('heap', ArraySort(I, q)) for p, q, _ in self.leaves(et)}), 'heap')
                null = fconst('oom', B) if n['placement'] else BoolVal(False)
                yield s, VPtr(lv, IntVal(0), null)
            return
        for s, v in (self.ev(st, n['init']) if n['init'] else [(st, self.fresh(st, n['at'], 'new'))]):
            if isinstance(v, Throw):
                yield s, v
                continue
            lv = self.alloc(s, self.val(s, v), 'heap')
            null = fconst('oom', B) if n['placement'] else BoolVal(False)
            yield s, VPtr(lv, None, null)

    def ev_delete(self, st, n):
        for s, v in self.ev(st, n['e']):
            if isinstance(v, Throw):
                yield s, v
                continue
            yield from self.lib.delete(self, s, self.val(s, v), n)

    # ---------- calls ------------------------------------------------------------------------------------
    def ev_call(self, st, n):
        f = n['fn']
        if f['qn'] in ('__assert_fail', '__builtin_unreachable', 'abort'):
            self.oblige(st, BoolVal(False), 'assert at %s' % n['loc'].rsplit('/', 1)[-1], n['loc'], kind='assert')
            return
        for s, vs in self.evs(st, n['args']):
            if isinstance(vs, Throw):
                yield s, vs
                continue
            yield from self.dispatch(s, f, None, vs, n)

    def ev_mcall(self, st, n):
        for s, vs in self.evs(st, [n['obj']] + n['args']):
            if isinstance(vs, Throw):
                yield s, vs
                continue
            obj = vs[0]
            if n['arrow']:
                obj = self.deref(s, self.val(s, obj), n['loc'])
            if not isinstance(obj, Lv):
                obj = self.alloc(s, obj, 'obj')
            yield from self.dispatch(s, n['fn'], obj, vs[1:], n)

    def ev_icall(self, st, n):
        for s, vs in self.evs(st, n['args']):
            if isinstance(vs, Throw):
                yield s, vs
                continue
            yield from self.lib.icall(self, s, n, vs)

    def dispatch(self, st, f, obj, args, n):
        if isinstance(obj, Lv) and f.get('name', f.get('qn', '')).endswith('operator()') and isinstance(self.read(st, obj), VClosure):
            yield from self.call_closure(st, self.read(st, obj), args, n['loc'])
            return
        if f.get('defaulted') is None and 'id' in f and f['id'] in self.fns:
            fn = self.fns[f['id']]
            c = self.contract_for(fn)
            if c and not c.get('inline') and self.callstack:
                yield from self.apply_contract(st, c, fn, obj if not f.get('static') else None, args, n['loc'])
            else:
                yield from self.inline(st, fn, obj if not f.get('static') else None, args, n['loc'])
            return
        yield from self.lib.call(self, st, f, obj, args, n)

    def ev_ctor(self, st, n, target=None):
        f = n['fn']
        t = self.T.get(n['t'])
        for s, vs in self.evs(st, n['args']):
            if isinstance(vs, Throw):
                yield s, vs
                continue
            if (f.get('copy') or f.get('move')) and len(vs) >= 1 and t.k in ('struct', 'vec', 'set', 'map', 'opt', 'list', 'iter', 'closure', 'func', 'opaque', 'int', 'ilist') \
                    and (f.get('defaulted') or 'id' not in f):
                v = self.val(s, vs[0])
                if f.get('move') and isinstance(vs[0], Lv):
                    self.write(s, vs[0], self.moved(s, v))
                yield s, v
                continue
            if 'id' in f and f['id'] in self.fns and not f.get('defaulted'):
                yield from self.construct(s, self.fns[f['id']], t, vs, n['loc'], target)
                continue
            yield from self.lib.ctor(self, s, f, t, vs, n)

    def moved(self, st, v):
        """The state of an object that was moved from (as libstdc++ and Boost leave it)."""
        if isinstance(v, VVec) and v.ty.k != 'carray':
            return VVec(v.ty, IntVal(0), v.comps)
        if isinstance(v, VSet):
            st.assume(empty_facts())
            return VSet(v.ty, EMPTY)
        if isinstance(v, VStruct):
            return VStruct(v.ty, {f: (x if isinstance(x, Lv) else self.moved(st, x)) for f, x in v.fields.items()})
        return v

    # ---------- loops --------------------------------------------------------------------------------------
    def ex_loop(self, st, n):
        from .loops import run_loop
        yield from run_loop(self, st, n)


pow2 = Function('pow2', I, I)
band = Function('band', I, I, I)
bor = Function('bor', I, I, I)

