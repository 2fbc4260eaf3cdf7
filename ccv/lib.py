"""Assumed models of the library functions the code calls (C++ standard library, Boost, gf_complete)."""
from z3 import *
from .theory import *
from .values import *
from .ctypes_ import Break, Ty
from .engine import pow2, is_q


def setfacts(E, st, A, order=False):
    k = ('set', A.get_id(), order)
    if k in st.known:
        return
    st.known.add(k)
    keep(A)
    st.assume(set_facts(A, order))
    if E.fin:
        st.assume(fin(A))


_keep = []


def keep(t):
    _keep.append(t)


def insert_key(E, st, A, x, order=False):
    setfacts(E, st, A, order)
    Bn, f = store_facts(A, x, True, order)
    st.assume(f)
    st.known.add(('set', Bn.get_id(), order)); keep(Bn)
    return Bn


def erase_key(E, st, A, x, order=False):
    setfacts(E, st, A, order)
    Bn, f = store_facts(A, x, False, order)
    st.assume(f)
    st.known.add(('set', Bn.get_id(), order)); keep(Bn)
    return Bn


def is_ordered(st, A):
    return ('set', A.get_id(), True) in st.known


# ---------- iterators ----------------------------------------------------------------------------------
def seqlen(v):
    return card(v.a) if isinstance(v, VSet) else v.n


def elem_at(E, st, lv, v, pos, it=None):
    """Value or lvalue of an element of a sequence."""
    if isinstance(v, VSet):
        p = simplify(pos)
        if it is not None and getattr(it, 'key', None) is not None and it.of.eq(v.a):
            x = it.key
        elif is_int_value(p) and p.as_long() == 0:
            setfacts(E, st, v.a)
            x = mn(v.a)
        else:
            setfacts(E, st, v.a, True)
            x = at(v.a, pos)
        et = E.T.get(v.ty.el)
        if et.k == 'iter':
            return VIter('map', E.region(st, et), pos=x, end=BoolVal(False))
        st.assume(E.in_range(x, et))
        return x
    return lv.add('i', pos)


def iter_deref(E, st, it, loc=''):
    if isinstance(it, VPtr):
        return E.deref(st, it, loc)
    v = E.read(st, it.lv)
    if it.kind == 'map':
        E.oblige(st, And(Not(it.end), v.dom[it.pos]), 'dereferenced iterator designates an element', loc)
        return it.lv.add('e', it.pos)
    pos = it.pos - 1 if it.rev else lpos(E, st, it)
    E.oblige(st, And(pos >= 0, pos < seqlen(v)), 'dereferenced iterator is in range', loc)
    return elem_at(E, st, it.lv, v, pos, it)


def map_next(E, st, A, x, hint='next'):
    """(position, end) following key x in A; x need not be in A any more."""
    y, e = fint(hint), fconst(hint + '.end', B)
    z = Int('z')
    setfacts(E, st, A)
    st.assume(Implies(Not(e), And(A[y], y > x)),
              ForAll([z], Implies(And(A[z], z > x), And(Not(e), y <= z)), patterns=[A[z]]),
              Implies(And(Not(e)), Or(mx(A) >= y)), 0 <= y, y < 2 ** 32)
    if is_ordered(st, A):
        st.assume(Implies(A[x], If(e, rank(A, x) + 1 == card(A), rank(A, y) == rank(A, x) + 1)))
    return y, e


def map_lower(E, st, A, x):
    y, e = fint('lb'), fconst('lb.end', B)
    z = Int('z')
    setfacts(E, st, A)
    st.assume(Implies(Not(e), And(A[y], y >= x)),
              ForAll([z], Implies(And(A[z], z >= x), And(Not(e), y <= z)), patterns=[A[z]]), 0 <= y, y < 2 ** 32)
    return y, e


def iter_next(E, st, it, k=1, loc=''):
    if isinstance(it, VPtr):
        return VPtr(it.lv, it.off + k, it.null, it.size)
    if it.kind == 'map':
        v = E.read(st, it.lv)
        if isinstance(k, ExprRef) or k not in (1, -1):
            kk = IntVal(k) if not isinstance(k, ExprRef) else k
            setfacts(E, st, v.dom, True)
            E.oblige(st, And(Not(it.end), v.dom[it.pos], kk >= 0, rank(v.dom, it.pos) + kk <= card(v.dom)), 'advanced iterator stays in range', loc)
            p = rank(v.dom, it.pos) + kk
            return VIter('map', it.lv, pos=at(v.dom, p), end=p >= card(v.dom))
        if k == -1:
            setfacts(E, st, v.dom)
            E.oblige(st, card(v.dom) > 0, 'std::prev on a non-empty map', loc)
            if E.quick(st, it.end):
                return VIter('map', it.lv, pos=mx(v.dom), end=BoolVal(False))
            raise Break('-- on a map iterator')
        E.oblige(st, And(Not(it.end), v.dom[it.pos]), 'incremented iterator designates an element', loc)
        y, e = map_next(E, st, v.dom, it.pos)
        return VIter('map', it.lv, pos=y, end=e)
    d = -k if it.rev else k
    return VIter(it.kind, it.lv, pos=it.pos + d, rev=it.rev)


def iter_eq(E, st, a, b):
    if isinstance(a, VPtr) and isinstance(b, VPtr):
        return E.binop(st, '==', a, b, {'t': 'bool'})
    if not (isinstance(a, VIter) and isinstance(b, VIter)):
        raise Break('comparison of %r and %r' % (a, b))
    if a.kind == 'map':
        return Or(And(a.end, b.end), And(Not(a.end), Not(b.end), a.pos == b.pos))
    return lpos(E, st, a) == lpos(E, st, b)


def lpos(E, st, it):
    """Position of an iterator; the end iterator of a list stays the end when elements come or go."""
    return E.read(st, it.lv).n if it.end is not None else it.pos


def list_erased(E, st, obj, v, pos):
    """The other iterators on a list keep designating their element."""
    if v.ty.k != 'list':
        return
    for r, x in list(st.store.items()):
        if isinstance(x, VIter) and x.kind == 'seq' and x.lv.same(obj) and x.end is None and not r.startswith('#tmp') and not r.startswith('#arg'):
            if x.rev:
                raise Break('reverse iterator on a list that changes')
            E.write(st, Lv(r), VIter('seq', x.lv, pos=If(x.pos > pos, x.pos - 1, If(x.pos == pos, IntVal(-1), x.pos))))


def begin(E, st, lv, end=False, rev=False):
    v = E.read(st, lv)
    if isinstance(v, VMap):
        setfacts(E, st, v.dom)
        if rev:
            raise Break('reverse iteration of a map')
        if end:
            return VIter('map', lv, pos=IntVal(0), end=BoolVal(True))
        return VIter('map', lv, pos=mn(v.dom), end=card(v.dom) == 0)
    if isinstance(v, VSet):
        setfacts(E, st, v.a)
        n = card(v.a)
        return VIter('seq', lv, pos=(IntVal(0) if end == rev else n), rev=rev)
    if isinstance(v, VVec):
        if v.ty.k in ('carray', 'ilist'):
            return VPtr(lv, v.n if end else IntVal(0))
        return VIter('seq', lv, pos=(IntVal(0) if end == rev else v.n), rev=rev, end=(BoolVal(True) if end and not rev and v.ty.k == 'list' else None))
    raise Break('begin of %r' % v)


# ---------- sequences of bytes -----------------------------------------------------------------------------
def rng(E, st, it):
    """(lv, value, offset) of an iterator or pointer into a sequence."""
    if isinstance(it, VPtr):
        if it.lv is None:
            return None, None, None
        return it.lv, E.read(st, it.lv), (it.off if it.off is not None else IntVal(0))
    if isinstance(it, VIter) and it.kind == 'seq' and not it.rev:
        return it.lv, E.read(st, it.lv), it.pos
    raise Break('range %r' % it)


def be_bytes(v, n):
    return [(v / (256 ** (n - 1 - i))) % 256 for i in range(n)]


def raw_bytes(E, st, v, n):
    """The bytes in memory of a scalar."""
    if isinstance(v, VBE):
        return be_bytes(v.v, n)
    if isinstance(v, VRaw):
        return v.bytes
    return [(v / (256 ** i)) % 256 for i in range(n)]


def copied(E, st, dst, doff, src, soff, n, name='copy'):
    """Array dst with n elements replaced from src."""
    m = simplify(n)
    if is_int_value(m) and m.as_long() <= 4:
        a = dst
        for i in range(m.as_long()):
            a = Store(a, doff + i, src[soff + i])
        return a
    c = fconst(name, dst.sort())
    i = Int('i')
    st.assume(ForAll([i], c[i] == If(And(i >= doff, i < doff + n), src[soff + i - doff], dst[i]), patterns=[c[i]]))
    if dst.sort() == BytesS:
        st.assume(Implies(n >= KPOS + WORD, cell(c, doff) == cell(src, soff)))
    return c


def copy_n(E, st, src, n, dst, loc):
    E.oblige(st, n >= 0, 'copied length is not negative', loc)
    if isinstance(dst, VPtr) and dst.size is not None:   # bytes of a scalar
        k = simplify(n)
        if not is_int_value(k) or k.as_long() != dst.size:
            raise Break('partial copy into a scalar')
        lv, v, off = rng(E, st, src)
        E.oblige(st, And(off >= 0, off + n <= v.n), 'read within the buffer', loc)
        bs = [Select(v.comps[''], off + i) for i in range(dst.size)]
        for b in bs:
            st.assume(b >= 0, b < 256)
        E.write(st, dst.lv, VRaw(bs))
        return VPtr(dst.lv, dst.off + n, dst.null, dst.size)
    if isinstance(dst, VOpaque) or isinstance(src, VOpaque):
        raise Break('copy of %r to %r' % (src, dst))
    dlv, dv, doff = rng(E, st, dst)
    E.oblige(st, And(doff >= 0, doff + n <= dv.n), 'write within the buffer', loc)
    if isinstance(src, VPtr) and src.size is not None:
        k = simplify(n).as_long()
        bs = raw_bytes(E, st, E.read(st, src.lv), src.size)
        a = dv.comps['']
        for i in range(k):
            a = Store(a, doff + i, bs[i])
        comps = {'': a}
    else:
        slv, sv, soff = rng(E, st, src)
        if isinstance(sv, VSet):
            raise Break('copy of a set')
        E.oblige(st, And(soff >= 0, soff + n <= sv.n), 'read within the buffer', loc)
        comps = {p: copied(E, st, dv.comps[p], doff, sv.comps[p], soff, n) for p in dv.comps}
    E.write(st, dlv, VVec(dv.ty, dv.n, comps))
    return VIter('seq', dlv, pos=doff + n) if isinstance(dst, VIter) else VPtr(dlv, doff + n, dst.null)


def distance(E, st, a, b):
    if isinstance(a, VPtr):
        return (b.off if b.off is not None else 0) - (a.off if a.off is not None else 0)
    if a.kind == 'seq':
        return b.pos - a.pos
    raise Break('distance of map iterators')


# ---------- constructors -----------------------------------------------------------------------------------
def ctor(E, st, f, t, args, n):
    vals = [E.val(st, a) for a in args]
    args = [a for a, v in zip(args, vals) if not (isinstance(v, VOpaque) and 'alloc' in v.name)]
    vals = [v for v in vals if not (isinstance(v, VOpaque) and 'alloc' in v.name)]
    if t.k == 'vec':
        yield st, vec_ctor(E, st, t, vals, n)
        return
    if t.name and t.name.startswith('std::chrono::'):
        # durations and dates are integers in nanoseconds, whatever their type
        if not vals:
            yield st, IntVal(0)
            return
        if len(vals) == 1 and isinstance(vals[0], ExprRef):
            chrono = any('std::chrono' in p for p in f.get('params', [])) or f.get('copy') or f.get('move') or any('std::chrono' in str(x) for x in f.get('targs', []) or [])
            yield st, (vals[0] if chrono else vals[0] * nanos(t.name))
            return
    if t.k == 'list':
        if not vals:
            yield st, VVec(t, IntVal(0), {p: fconst('l', ArraySort(I, s)) for p, s, _ in E.leaves(E.T.get(t.el))})
            return
    if t.k == 'set':
        if not vals:
            st.assume(empty_facts())
            yield st, VSet(t, EMPTY)
            return
        if len(vals) == 1 and isinstance(vals[0], VIList):
            a = EMPTY
            st.assume(empty_facts())
            for e in vals[0].elems:
                a = insert_key(E, st, a, e.pos if isinstance(e, VIter) else e)
            yield st, VSet(t, a)
            return
    if t.k == 'map' and not vals:
        st.assume(empty_facts())
        yield st, E.zero(st, t)
        return
    if t.k == 'opt':
        if not vals:
            yield st, VOpt(t, BoolVal(False), E.fresh(st, t.el, 'none'))
            return
        v = vals[0]
        yield st, (v if isinstance(v, VOpt) else VOpt(t, BoolVal(True), v))
        return
    if t.k == 'struct' and t.fields is not None and t.name.startswith(('std::pair', 'boost::container::dtl::pair')):
        if len(vals) == 2:
            yield st, VStruct(t, {'first': vals[0], 'second': vals[1]})
            return
        if len(vals) == 1 and isinstance(vals[0], VStruct):
            src = vals[0]
            if isinstance(args[0], Lv) and f.get('move'):
                E.write(st, args[0], E.moved(st, src))
            yield st, VStruct(t, dict(src.fields))
            return
        if not vals:
            yield st, E.zero(st, t)
            return
    if t.k in ('iter', 'func', 'int', 'closure') and len(vals) == 1:
        if t.k == 'func' and isinstance(vals[0], VClosure):
            yield st, vals[0]
            return
        yield st, vals[0]
        return
    if t.k in ('int',) and not vals:
        yield st, IntVal(0)
        return
    if t.k == 'struct' and not vals and f.get('default', True):
        yield st, E.zero(st, t)
        return
    if t.k in ('opaque',) or 'alloc' in (t.name or '') or (t.name or '').startswith(('std::exception', 'std::runtime_error')):
        yield st, VOpaque(t.name)
        return
    if t.k == 'struct' and (f.get('copy') or f.get('move')) and vals:
        yield st, vals[0]
        return
    raise Break('constructor of %s with %d arguments' % (t.name, len(vals)))


def vec_ctor(E, st, t, vals, n):
    lv = E.leaves(E.T.get(t.el))

    def arb(nm='vec'):
        return {p: fconst(nm, ArraySort(I, s)) for p, s, _ in lv}
    if not vals:
        return VVec(t, IntVal(0), arb())
    if isinstance(vals[0], VIList):
        a = {p: fconst('il', ArraySort(I, s)) for p, s, _ in lv}
        for i, e in enumerate(vals[0].elems):
            for p, x in E.flatten(e, E.T.get(t.el)).items():
                a[p] = Store(a[p], i, x)
        return VVec(t, IntVal(len(vals[0].elems)), a)
    if len(vals) == 1 and isinstance(vals[0], ExprRef):
        st.assume(vals[0] < 2 ** 48)   # std::length_error / bad_alloc otherwise
        if t.flag == 'default_init':
            return VVec(t, vals[0], arb())
        return VVec(t, vals[0], {p: K(I, E.zero_sort(s)) for p, s, _ in lv})
    if len(vals) == 2 and isinstance(vals[0], ExprRef) and isinstance(vals[1], (ExprRef, VStruct)):
        st.assume(vals[0] < 2 ** 48)
        return VVec(t, vals[0], {p: K(I, x) for p, x in E.flatten(vals[1], E.T.get(t.el)).items()})
    if len(vals) == 2 and isinstance(vals[0], (VPtr, VIter)):
        k = distance(E, st, vals[0], vals[1])
        slv, sv, off = rng(E, st, vals[0])
        if slv is None:
            E.oblige(st, k == 0, 'empty range', n['loc'])
            return VVec(t, IntVal(0), arb())
        E.oblige(st, And(off >= 0, k >= 0, off + k <= sv.n), 'range within the buffer', n['loc'])
        return VVec(t, k, {p: copied(E, st, fconst('vec', ArraySort(I, s)), IntVal(0), sv.comps[p], off, k, 'vec') for p, s, _ in lv})
    raise Break('vector constructor %r' % vals)


def nanos(name):
    import re
    m = re.search(r'ratio<(\d+), *(\d+)>', name)
    if not m:
        return 10 ** 9
    num, den = int(m.group(1)), int(m.group(2))
    if 10 ** 9 * num % den:
        raise Break('duration ' + name)
    return 10 ** 9 * num // den


# ---------- calls ------------------------------------------------------------------------------------------
def call(E, st, f, obj, args, n):
    qn = f['qn']
    name = qn.rsplit('::', 1)[-1]
    loc = n.get('loc', '')
    h = E.hooks.get(qn)
    if h:
        yield from h(E, st, f, obj, args, n)
        return
    E.assumed_models.add(qn)
    if obj is None:
        yield from free(E, st, qn, name, f, args, n, loc)
        return
    v = E.read(st, obj)
    if f.get('copyassign') or f.get('moveassign') or (name == 'operator=' and f.get('defaulted')):
        src = E.val(st, args[0])
        if isinstance(v, VOpt) and not isinstance(src, VOpt):
            src = VOpt(v.ty, BoolVal(True), src)
        if f.get('moveassign') and isinstance(args[0], Lv):
            E.write(st, args[0], E.moved(st, src))
        E.write(st, obj, src)
        yield st, obj
        return
    if isinstance(v, VClosure) or (isinstance(v, VOpaque) and qn.startswith('std::function')):
        h = E.hooks.get('std::function')
        if isinstance(v, VClosure) and not (h and qn.startswith('std::function')):
            yield from E.call_closure(st, v, args, loc)
            return
        if h:
            yield from h(E, st, f, obj, args, n)
            return
        raise Break('call of an unknown std::function')
    if isinstance(v, VVec):
        yield from vec_call(E, st, v, obj, name, args, n, loc)
    elif isinstance(v, VSet):
        yield from set_call(E, st, v, obj, name, args, n, loc)
    elif isinstance(v, VMap):
        yield from map_call(E, st, v, obj, name, args, n, loc)
    elif isinstance(v, VOpt):
        if name in ('conv', 'has_value', 'is_initialized', 'operator bool'):
            yield st, v.has
        elif name in ('operator*', 'get', 'operator->', 'value'):
            E.oblige(st, v.has, 'optional has a value', loc)
            r = obj.add('o')
            yield st, (VPtr(r) if name == 'operator->' else r)
        elif name == 'operator!':
            yield st, Not(v.has)
        elif name == 'operator=':
            x = E.val(st, args[0])
            E.write(st, obj, x if isinstance(x, VOpt) else VOpt(v.ty, BoolVal(True), x))
            yield st, obj
        elif name == 'reset':
            E.write(st, obj, VOpt(v.ty, BoolVal(False), v.v))
            yield st, VOID
        else:
            raise Break('optional::' + name)
    elif isinstance(v, VIter):
        yield from iter_call(E, st, v, obj, name, args, n, loc)
    elif isinstance(v, VIList) and name == 'size':
        yield st, IntVal(len(v.elems))
    elif isinstance(v, VOpaque) and name == 'what':
        a = fconst('msg', BytesS)
        k = fint('msglen')
        st.assume(k >= 0, k < 2 ** 32, a[k] == 0)
        i = Int('i')
        st.assume(ForAll([i], Implies(And(i >= 0, i < k), a[i] != 0), patterns=[a[i]]))
        if v.data is None:
            lv = E.alloc(st, VVec(Ty('vec', el='char', name='message'), k + 1, {'': a}), 'what')
            E.write(st, obj, VOpaque(v.name, lv))
        else:
            lv = v.data
        yield st, VPtr(lv, IntVal(0))
    elif isinstance(v, ExprRef) and name == 'operator=':
        E.write(st, obj, E.val(st, args[0]))
        yield st, obj
    elif isinstance(v, ExprRef) and name == 'count':
        yield st, v / nanos(f.get('cls') or '')
    elif isinstance(v, VStruct) and name == 'operator=' and f.get('defaulted'):
        E.write(st, obj, E.val(st, args[0]))
        yield st, obj
    else:
        raise Break('call of %s on %r' % (qn, v))


def iter_call(E, st, v, obj, name, args, n, loc):
    if name == 'operator*':
        yield st, iter_deref(E, st, v, loc)
    elif name == 'operator->':
        r = iter_deref(E, st, v, loc)
        if not isinstance(r, Lv):
            r = E.alloc(st, r)
        yield st, VPtr(r)
    elif name in ('operator++', 'operator--'):
        k = 1 if name == 'operator++' else -1
        E.write(st, obj, iter_next(E, st, v, k, loc))
        yield st, (v if args else obj)
    elif name == 'operator+':
        yield st, iter_next(E, st, v, E.val(st, args[0]), loc)
    elif name == 'operator-':
        x = E.val(st, args[0])
        yield st, (distance(E, st, x, v) if isinstance(x, VIter) else iter_next(E, st, v, -x, loc))
    elif name == 'operator+=':
        E.write(st, obj, iter_next(E, st, v, E.val(st, args[0]), loc))
        yield st, obj
    elif name == 'operator=':
        E.write(st, obj, E.val(st, args[0]))
        yield st, obj
    elif name == 'base':
        yield st, VIter(v.kind, v.lv, pos=v.pos)
    elif name == 'operator[]':
        yield st, iter_deref(E, st, iter_next(E, st, v, E.val(st, args[0]), loc), loc)
    elif name in ('operator==', 'operator!='):
        e = iter_eq(E, st, v, E.val(st, args[0]))
        yield st, (e if name == 'operator==' else Not(e))
    else:
        raise Break('iterator ' + name)


def grow(E, st, v, k, fill=None):
    """Resize to k elements: new ones are `fill` (or arbitrary)."""
    comps = {}
    i = Int('i')
    for p, a in v.comps.items():
        c = fconst('resized', a.sort())
        if fill is None:
            st.assume(ForAll([i], Implies(And(i >= 0, i < v.n, i < k), c[i] == a[i]), patterns=[c[i]]))
        else:
            st.assume(ForAll([i], Implies(And(i >= 0, i < k), c[i] == If(i < v.n, a[i], fill[p])), patterns=[c[i]]))
        if a.sort() == BytesS:
            # the observed word, when it is entirely old or entirely new
            st.assume(Implies(And(KPOS + WORD <= v.n, KPOS + WORD <= k), cell(c, 0) == cell(a, 0)))
            if fill is not None and is_int_value(fill[p]) and fill[p].as_long() == 0:
                st.assume(Implies(And(KPOS >= v.n, KPOS + WORD <= k), cell(c, 0) == ZERO))
        comps[p] = c
    return VVec(v.ty, k, comps)


def vec_call(E, st, v, obj, name, args, n, loc):
    et = E.T.get(v.ty.el)
    if name == 'size' or name == 'length':
        yield st, v.n
    elif name == 'empty':
        yield st, v.n == 0
    elif name == 'data':
        yield st, VPtr(obj, IntVal(0))
    elif name in ('begin', 'cbegin'):
        yield st, begin(E, st, obj)
    elif name in ('end', 'cend'):
        yield st, begin(E, st, obj, True)
    elif name in ('rbegin', 'rend'):
        yield st, begin(E, st, obj, name == 'rend', True)
    elif name in ('operator[]', 'at'):
        i = E.val(st, args[0])
        E.oblige(st, And(i >= 0, i < v.n), 'index in range', loc)
        yield st, obj.add('i', i)
    elif name in ('back', 'front'):
        E.oblige(st, v.n > 0, '%s of a non-empty sequence' % name, loc)
        yield st, obj.add('i', v.n - 1 if name == 'back' else IntVal(0))
    elif name in ('push_back', 'emplace_back'):
        if len(args) == 1:
            x = E.val(st, args[0])
            if isinstance(args[0], Lv) and name == 'push_back' and n['fn']['params'] and n['fn']['params'][0].endswith('&&') if False else False:
                pass
            res = [(st, x)]
        else:
            res = list(construct_el(E, st, et, args, n))
        for s, x in res:
            if isinstance(x, Throw):
                yield s, x
                continue
            v = E.read(s, obj)
            s.assume(v.n < 2 ** 47)
            comps = dict(v.comps)
            for p, y in E.flatten(x, et).items():
                comps[p] = Store(comps[p], v.n, y)
            E.write(s, obj, VVec(v.ty, v.n + 1, comps))
            yield s, VOID
    elif name == 'pop_back':
        E.oblige(st, v.n > 0, 'pop_back of a non-empty sequence', loc)
        E.write(st, obj, VVec(v.ty, v.n - 1, v.comps))
        yield st, VOID
    elif name == 'pop_front':
        E.oblige(st, v.n > 0, 'pop_front of a non-empty sequence', loc)
        E.write(st, obj, removed(E, st, v, IntVal(0)))
        list_erased(E, st, obj, v, IntVal(0))
        yield st, VOID
    elif name == 'erase' and len(args) == 1:
        it = E.val(st, args[0])
        E.oblige(st, And(it.pos >= 0, it.pos < v.n), 'erased iterator designates an element', loc)
        E.write(st, obj, removed(E, st, v, it.pos))
        list_erased(E, st, obj, v, it.pos)
        yield st, VIter('seq', obj, pos=it.pos)
    elif name == 'resize':
        k = E.val(st, args[0])
        st.assume(k < 2 ** 48)
        if len(args) > 1 and not isinstance(E.val(st, args[1]), VOpaque):
            fill = E.flatten(E.val(st, args[1]), et)
        elif v.ty.flag == 'default_init':
            fill = None
        else:
            fill = {p: E.zero_sort(s) for p, s, _ in E.leaves(et)}
        E.write(st, obj, grow(E, st, v, k, fill))
        yield st, VOID
    elif name == 'clear':
        E.write(st, obj, VVec(v.ty, IntVal(0), v.comps))
        yield st, VOID
    elif name in ('reserve', 'shrink_to_fit'):
        if self_writes(E):
            E.writes.add(placeholder(obj))
        yield st, VOID
    elif name == 'capacity':
        k = fint('cap')
        st.assume(k >= v.n, k < 2 ** 48)
        yield st, k
    elif name == 'assign':
        a = [E.val(st, x) for x in args]
        E.write(st, obj, vec_ctor(E, st, v.ty, a, n))
        yield st, VOID
    elif name == 'operator=':
        E.write(st, obj, E.val(st, args[0]))
        yield st, obj
    else:
        raise Break('sequence ' + name)


def self_writes(E):
    return False


def placeholder(obj):
    return (obj.root, ())


def construct_el(E, st, et, args, n):
    """Construction of an element from arguments (emplace)."""
    if et.k == 'struct' and et.name.startswith('std::pair'):
        vs = [E.val(st, a) for a in args]
        fs = [E.T.get(t) for _, t in et.fields]
        vs = [E.convert(st, v, Ty('int', w=64, sg=False), t, '') if isinstance(v, ExprRef) and t.k == 'int' else v for v, t in zip(vs, fs)]
        yield st, VStruct(et, dict(zip(['first', 'second'], vs)))
        return
    if et.k == 'struct':
        c = [f for f in E.fns.values() if f.get('cls') == et.name and 'inits' in f and len(f['params']) == len(args)]
        if len(c) == 1:
            yield from E.construct(st, c[0], et, args, n['loc'])
            return
    raise Break('emplacement of ' + str(et.name))


def removed(E, st, v, pos):
    comps = {}
    i = Int('i')
    for p, a in v.comps.items():
        c = fconst('erased', a.sort())
        st.assume(ForAll([i], c[i] == If(i < pos, a[i], a[i + 1]), patterns=[c[i]]))
        st.assume(ForAll([i], a[i] == If(i < pos, c[i], If(i > pos, c[i - 1], a[i])), patterns=[a[i]]))
        comps[p] = c
    return VVec(v.ty, v.n - 1, comps)


def keyof(E, st, x):
    x = E.val(st, x)
    if isinstance(x, VIter) and x.kind == 'map':
        return x.pos
    if isinstance(x, ExprRef):
        return x
    return None


def set_call(E, st, v, obj, name, args, n, loc):
    A = v.a
    o = is_ordered(st, A)
    if name == 'size':
        setfacts(E, st, A)
        yield st, card(A)
    elif name == 'empty':
        setfacts(E, st, A)
        yield st, card(A) == 0
    elif name in ('begin', 'cbegin', 'end', 'cend'):
        yield st, begin(E, st, obj, 'end' in name)
    elif name in ('rbegin', 'rend', 'crbegin', 'crend'):
        yield st, begin(E, st, obj, 'end' in name, True)
    elif name == 'clear':
        st.assume(empty_facts())
        E.write(st, obj, VSet(v.ty, EMPTY))
        yield st, VOID
    elif name == 'count':
        setfacts(E, st, A)
        yield st, If(A[keyof(E, st, args[0])], IntVal(1), IntVal(0))
    elif name == 'find':
        yield st, set_find(E, st, obj, A, keyof(E, st, args[0]))
    elif name in ('insert', 'emplace', 'emplace_hint'):
        if name == 'insert' and len(args) == 2 and isinstance(E.val(st, args[1]), VIter) and E.T.get(v.ty.el).k != 'iter':
            raise Break('insertion of a range')
        k = keyof(E, st, args[-1])
        if k is None:
            raise Break('set insertion')
        new = Not(A[k])
        Bn = insert_key(E, st, A, k, o)
        E.write(st, obj, VSet(v.ty, Bn))
        it = VIter('seq', obj, pos=rank(Bn, k))
        it.key, it.of = k, Bn
        if len(args) == 2 or name == 'emplace_hint':
            yield st, it
        else:
            yield st, VStruct(Ty('struct', name='std::pair<it,bool>', fields=[('first', 'std::iterator<>'), ('second', 'bool')]), {'first': it, 'second': new})
    elif name == 'erase' and len(args) == 1:
        a = E.val(st, args[0])
        if isinstance(a, VIter) and a.kind == 'seq':
            E.oblige(st, And(a.pos >= 0, a.pos < card(A)), 'erased iterator designates an element', loc)
            k = elem_at(E, st, obj, v, a.pos, a)
            k = k.pos if isinstance(k, VIter) else k
            st.assume(A[k])
            o = is_ordered(st, A)
            Bn = erase_key(E, st, A, k, o)
            E.write(st, obj, VSet(v.ty, Bn))
            yield st, VIter('seq', obj, pos=a.pos)
        else:
            k = keyof(E, st, args[0])
            Bn = erase_key(E, st, A, k, o)
            E.write(st, obj, VSet(v.ty, Bn))
            yield st, If(A[k], IntVal(1), IntVal(0))
    elif name == 'reserve' or name == 'shrink_to_fit':
        yield st, VOID
    elif name == 'operator=':
        E.write(st, obj, E.val(st, args[0]))
        yield st, obj
    else:
        raise Break('set ' + name)


def set_find(E, st, lv, A, k):
    setfacts(E, st, A)
    p = fint('found')
    st.assume(Implies(A[k], And(0 <= p, p < card(A), p == rank(A, k), at(A, p) == k)), Implies(Not(A[k]), p == card(A)))
    it = VIter('seq', lv, pos=p)
    it.key, it.of = k, A
    return it


def map_call(E, st, v, obj, name, args, n, loc):
    A = v.dom
    if name == 'size':
        setfacts(E, st, A)
        yield st, card(A)
    elif name == 'empty':
        setfacts(E, st, A)
        yield st, card(A) == 0
    elif name in ('begin', 'cbegin', 'end', 'cend'):
        yield st, begin(E, st, obj, 'end' in name)
    elif name == 'clear':
        st.assume(empty_facts())
        E.write(st, obj, VMap(v.ty, EMPTY, v.comps))
        yield st, VOID
    elif name == 'count':
        setfacts(E, st, A)
        yield st, If(A[keyof(E, st, args[0])], IntVal(1), IntVal(0))
    elif name == 'find':
        k = keyof(E, st, args[0])
        setfacts(E, st, A)
        yield st, VIter('map', obj, pos=k, end=Not(A[k]))
    elif name in ('lower_bound', 'upper_bound'):
        k = keyof(E, st, args[0])
        y, e = map_lower(E, st, A, k if name == 'lower_bound' else k + 1)
        yield st, VIter('map', obj, pos=y, end=e)
    elif name == 'erase' and len(args) == 1:
        a = E.val(st, args[0])
        if isinstance(a, VIter):
            E.oblige(st, And(Not(a.end), A[a.pos]), 'erased iterator designates an element', loc)
            k = a.pos
            Bn = erase_key(E, st, A, k, is_ordered(st, A))
            E.write(st, obj, VMap(v.ty, Bn, v.comps))
            y, e = map_next(E, st, Bn, k, 'after')
            yield st, VIter('map', obj, pos=y, end=e)
        else:
            Bn = erase_key(E, st, A, a, is_ordered(st, A))
            E.write(st, obj, VMap(v.ty, Bn, v.comps))
            yield st, If(A[a], IntVal(1), IntVal(0))
    elif name == 'erase' and len(args) == 2:
        a, b = E.val(st, args[0]), E.val(st, args[1])
        setfacts(E, st, A)
        Bn = fconst('cut', SetS)
        x = Int('x')
        # keys in [a, b) are removed
        E.oblige(st, And(Or(a.end, A[a.pos]), Or(b.end, A[b.pos]), Or(b.end, And(Not(a.end), a.pos <= b.pos))), 'erased range is valid', loc)
        st.assume(ForAll([x], Bn[x] == And(A[x], Or(a.end, x < a.pos, And(Not(b.end), x >= b.pos))), patterns=[Bn[x]]),
                  ForAll([x], Bn[x] == And(A[x], Or(a.end, x < a.pos, And(Not(b.end), x >= b.pos))), patterns=[A[x]]))
        st.assume(card(Bn) <= card(A))
        setfacts(E, st, Bn)
        E.write(st, obj, VMap(v.ty, Bn, v.comps))
        yield st, VIter('map', obj, pos=b.pos, end=b.end)
    elif name in ('emplace', 'insert', 'try_emplace', 'emplace_hint'):
        if name == 'emplace_hint':
            args = args[1:]
        if name == 'insert':
            p = E.val(st, args[-1])
            if not isinstance(p, VStruct) or 'first' not in p.fields:
                raise Break('map insertion')
            k, x, src = p.fields['first'], p.fields['second'], None
        else:
            k, x, src = E.val(st, args[0]), E.val(st, args[1]), args[1]
        new = Not(A[k])
        et = E.T.get(v.ty.el)
        b = E.quick(st, new) or (not E.quiet and E.prover.prove_many([(E.facts(st), new)], effort=0)[0][0] == 'proved')
        Bn = insert_key(E, st, A, k, is_ordered(st, A))
        comps = dict(v.comps)
        for p, y in E.flatten(x, et).items():
            if not b:
                c = fconst('kept', y.sort())
                st.assume(c == If(A[k], comps[p][k], y))
                y = c
            comps[p] = Store(comps[p], k, y)
        E.write(st, obj, VMap(v.ty, Bn, comps))
        if isinstance(src, Lv) and isinstance(x, (VStruct, VVec, VSet)):
            E.write(st, src, E.moved(st, x) if b else x)
            if not b:
                E.write(st, src, E.moved(st, x))
        it = VIter('map', obj, pos=k, end=BoolVal(False))
        yield st, VStruct(Ty('struct', name='std::pair<it,bool>', fields=[('first', 'std::iterator<>'), ('second', 'bool')]), {'first': it, 'second': new})
    elif name == 'at':
        k = keyof(E, st, args[0])
        E.oblige(st, A[k], 'map::at finds the key', loc)
        yield st, obj.add('k', k)
    elif name == 'operator[]':
        k = keyof(E, st, args[0])
        if not E.quick(st, A[k]):
            et = E.T.get(v.ty.el)
            z = E.flatten(E.zero(st, et), et)
            Bn = insert_key(E, st, A, k, is_ordered(st, A))
            comps = dict(v.comps)
            st.assume(empty_facts())
            for p, y in z.items():
                comps[p] = Store(comps[p], k, If(A[k], comps[p][k], y))
            E.write(st, obj, VMap(v.ty, Bn, comps))
        yield st, obj.add('k', k)
    else:
        raise Break('map ' + name)


def pred_formula(E, st, clo, mk, x):
    """The truth of a (pure) predicate on the element x as a formula."""
    E.quiet += 1
    E.depth += 1
    alts = []
    try:
        s0 = st.copy()
        base = len(s0.pc)
        el = mk(s0, x)
        base = len(s0.pc)
        before = dict(s0.store)
        for s, r in E.call_closure(s0, clo, [el], ''):
            if isinstance(r, Throw):
                raise Break('predicate throws')
            for k, y in before.items():
                if s.store.get(k) is not y:
                    raise Break('predicate modifies its context')
            t = E.truth(s, E.val(s, r))
            alts.append(And([c for c in s.pc[base:] if not is_q(c)] + [t]))
    finally:
        E.quiet -= 1
        E.depth -= 1
    return Or(alts) if len(alts) > 1 else alts[0]


def free(E, st, qn, name, f, args, n, loc):
    V = [E.val(st, a) for a in args] if name not in ('move', 'forward', 'begin', 'end', 'addressof') else args
    if name in ('move', 'forward') and len(args) == 1:
        yield st, args[0]
    elif name == 'addressof':
        yield st, VPtr(E.canon(args[0]))
    elif name in ('begin', 'cbegin', 'end', 'cend', 'rbegin', 'rend'):
        lv = args[0] if isinstance(args[0], Lv) else E.alloc(st, args[0], 'range')
        v = E.read(st, lv)
        if isinstance(v, VIList):
            a = fconst('il', BytesS)
            for i, x in enumerate(v.elems):
                a = Store(a, i, x)
            r = E.alloc(st, VVec(Ty('vec', el='char', name='ilist'), IntVal(len(v.elems)), {'': a}), 'il') if lv.root not in st.ghostil else st.ghostil[lv.root]
            st.ghostil[lv.root] = r
            yield st, VPtr(r, IntVal(0) if 'begin' in name else IntVal(len(v.elems)))
        else:
            yield st, begin(E, st, lv, 'end' in name, name.startswith('r'))
    elif name in ('operator==', 'operator!='):
        a, b = V
        if isinstance(a, VOpaque) or isinstance(b, VOpaque):
            raise Break('comparison')
        e = iter_eq(E, st, a, b) if isinstance(a, (VIter, VPtr)) else a == b
        yield st, (e if name == 'operator==' else Not(e))
    elif name in ('operator<', 'operator>', 'operator<=', 'operator>='):
        a, b = V
        if isinstance(a, VIter):
            a, b = a.pos, b.pos
        yield st, {'operator<': a < b, 'operator>': a > b, 'operator<=': a <= b, 'operator>=': a >= b}[name]
    elif name in ('operator-', 'operator+') and qn.startswith('std::chrono'):
        yield st, (V[0] - V[1] if name == 'operator-' else V[0] + V[1])
    elif name == 'operator-':
        yield st, distance(E, st, V[1], V[0])
    elif name == 'now':
        x = fint('now')
        st.assume(x >= 0, x < 2 ** 62)
        st.store['$now'] = x
        yield st, x
    elif name in ('duration_cast', 'time_point_cast'):
        u = nanos(n['t'])
        yield st, V[0] if u == 1 else If(V[0] >= 0, V[0] / u * u, -(-V[0] / u * u))
    elif name == 'zero' and qn.startswith('std::chrono'):
        yield st, IntVal(0)
    elif name in ('native_to_big', 'big_to_native', 'endian_reverse'):
        t = E.T.get(n['t'])
        v = V[0]
        k = t.w // 8
        if isinstance(v, VRaw):
            if k != len(v.bytes):
                raise Break('endianness of a different size')
            s = IntVal(0)
            for b in v.bytes:
                s = s * 256 + b
            s = simplify(s)
            st.assume(s >= 0, s < 256 ** k)
            yield st, (If(s >= 256 ** k // 2, s - 256 ** k, s) if t.sg else s)
        elif isinstance(v, VBE):
            yield st, v.v
        else:
            yield st, VBE(v, k)
    elif name in ('min', 'max') and len(V) == 2:
        if qn == 'std::numeric_limits::max':
            raise Break('max')
        c = V[0] <= V[1] if name == 'min' else V[0] >= V[1]
        yield st, If(c, V[0], V[1])
    elif qn.startswith('std::numeric_limits'):
        t = E.T.get(n['t'])
        if name == 'max':
            yield st, IntVal(2 ** (t.w - 1) - 1 if t.sg else 2 ** t.w - 1)
        elif name in ('min', 'lowest'):
            yield st, IntVal(-2 ** (t.w - 1) if t.sg else 0)
        else:
            raise Break(qn)
    elif name in ('next', 'prev'):
        k = V[1] if len(V) > 1 else IntVal(1)
        k = simplify(k)
        if is_int_value(k):
            k = k.as_long()
        yield st, iter_next(E, st, V[0], k if name == 'next' else -k, loc)
    elif name == 'advance':
        k = simplify(V[1])
        if is_int_value(k) and k.as_long() in (1, -1):
            k = k.as_long()
        E.write(st, args[0], iter_next(E, st, V[0], k, loc))
        yield st, VOID
    elif name == 'distance':
        yield st, distance(E, st, V[0], V[1])
    elif name == 'copy':
        if isinstance(V[0], VIter) or isinstance(V[0], VPtr):
            yield st, copy_n(E, st, V[0], distance(E, st, V[0], V[1]), V[2], loc)
        else:
            raise Break('copy')
    elif name == 'copy_n':
        yield st, copy_n(E, st, V[0], V[1], V[2], loc)
    elif name == 'memcpy':
        yield st, copy_n(E, st, V[1], V[2], V[0], loc)
    elif name in ('fill', 'fill_n'):
        lv, v, off = rng(E, st, V[0])
        k = distance(E, st, V[0], V[1]) if name == 'fill' else V[1]
        x = V[2]
        E.oblige(st, And(off >= 0, Or(k <= 0, off + k <= v.n)), 'filled range within the buffer', loc)
        comps = {}
        i = Int('i')
        for p, y in E.flatten(x, E.T.get(v.ty.el)).items():
            c = fconst('filled', v.comps[p].sort())
            st.assume(ForAll([i], c[i] == If(And(i >= off, i < off + k), y, v.comps[p][i]), patterns=[c[i]]))
            comps[p] = c
        E.write(st, lv, VVec(v.ty, v.n, comps))
        yield st, VOID
    elif name == 'find':
        lv, v, off = rng(E, st, V[0])
        if isinstance(v, VSet) and E.quick(st, And(off == 0, V[1].pos == card(v.a))):
            yield st, set_find(E, st, lv, v.a, V[2])
        else:
            raise Break('std::find')
    elif name in ('all_of', 'any_of', 'none_of'):
        lv, v, off = rng(E, st, V[0])
        if not isinstance(V[2], VClosure):
            raise Break(name)
        x = Int(fresh_name('el'))
        if isinstance(v, VSet) and E.quick(st, And(off == 0, V[1].pos == card(v.a))):
            ph = pred_formula(E, st, V[2], lambda s, y: y, x)
            y = Int('y')
            g = v.a[x]
            pats = [v.a[y]]
        else:
            raise Break(name)
        b = fconst(name, B)
        body = ph if name == 'all_of' else Not(ph)
        w = fint('w')
        st.assume(Implies(b if name != 'any_of' else Not(b), ForAll([y], substitute(Implies(g, body), (x, y)), patterns=pats)),
                  Implies(Not(b) if name != 'any_of' else b, substitute(And(g, Not(body)), (x, w))))
        yield st, b
    elif name == 'make_pair':
        ty = E.T.get(n['t'])
        vs = []
        for a, v in zip(args, V):
            if isinstance(a, Lv) and isinstance(v, (VStruct, VVec, VSet)):
                E.write(st, a, E.moved(st, v))
            vs.append(v)
        yield st, VStruct(ty, {'first': vs[0], 'second': vs[1]})
    elif name == 'ceil':
        x = V[0]
        i = fint('ceil')
        st.assume(ToReal(i) >= x, ToReal(i) - 1 < x)
        yield st, ToReal(i)
    elif name == 'floor':
        i = fint('floor')
        st.assume(ToReal(i) <= V[0], ToReal(i) + 1 > V[0])
        yield st, ToReal(i)
    elif name == 'strlen':
        p = V[0]
        if isinstance(p, VPtr) and p.lv is not None:
            v = E.read(st, p.lv)
            k = fint('strlen')
            i = Int('i')
            a = v.comps['']
            st.assume(k >= 0, ForAll([i], Implies(And(i >= 0, i < k), a[p.off + i] != 0), patterns=[a[p.off + i]]), Implies(v.n > 0, a[p.off + k] == 0))
            if v.ty.name == 'message':
                st.assume(k == v.n - 1 - p.off)
            yield st, k
        else:
            raise Break('strlen')
    elif name == 'back_inserter' or name == 'inserter':
        yield st, VOpaque('inserter', args[0])
    elif name == 'adjacent_difference':
        lv, v, off = rng(E, st, V[0])
        k = V[1].pos - off
        if not isinstance(v, VSet) or not isinstance(V[2], VOpaque) or not E.quick(st, And(off == 0, k == card(v.a))):
            raise Break(name)
        dst = V[2].data
        d = E.read(st, dst)
        if not E.quick(st, d.n == 0):
            raise Break('append')
        setfacts(E, st, v.a, True)
        c = fconst('diff', BytesS)
        i = Int('i')
        st.assume(Implies(k > 0, c[0] == mn(v.a)),
                  ForAll([i], Implies(And(0 < i, i < k), c[i] == at(v.a, i) - at(v.a, i - 1)), patterns=[c[i]]))
        E.write(st, dst, VVec(d.ty, k, {'': c}))
        yield st, V[2]
    elif name == 'partial_sum':
        lv, v, off = rng(E, st, V[0])
        k = V[1].pos - off
        if not isinstance(v, VVec) or not isinstance(V[2], VOpaque) or not E.quick(st, And(off == 0, k == v.n)):
            raise Break(name)
        dst = V[2].data
        d = E.read(st, dst)
        setfacts(E, st, d.a)
        E.oblige(st, card(d.a) == 0, 'partial_sum into an empty set', loc)
        c = v.comps['']
        i, x = Int('i'), Int('x')
        R = fconst('summed', SetS)
        wi = Function(fresh_name('widx'), I, I)
        st.assume(ForAll([i], Implies(And(0 <= i, i < v.n), R[psum(c, i)]), patterns=[psum(c, i)]),
                  ForAll([x], Implies(R[x], And(0 <= wi(x), wi(x) < v.n, psum(c, wi(x)) == x)), patterns=[R[x]]))
        setfacts(E, st, R)
        E.write(st, dst, VSet(d.ty, R))
        yield st, V[2]
    elif name == 'gf_init_easy':
        yield st, fint('gfok')
    elif name == 'gf_free':
        yield st, IntVal(0)
    elif name == 'swap' and len(args) == 2:
        E.write(st, args[0], V[1])
        E.write(st, args[1], V[0])
        yield st, VOID
    else:
        raise Break('library function ' + qn)


# ---------- gf_complete -------------------------------------------------------------------------------------
def gfw(E, st, n):
    """m_w of the field whose function pointer is called."""
    e = n['callee']
    while e['k'] in ('cast', 'mem'):
        if e['k'] == 'mem' and e['field'] == 'm_gf':
            break
        e = e['e'] if e['k'] == 'cast' else e['base']
    names = []
    e = n['callee']
    while e['k'] in ('cast', 'mem'):
        if e['k'] == 'mem':
            names.append(e['field'])
            e = e['base']
        else:
            e = e['e']
    obj = st.this
    w = E.read(st, obj.f('m_w'))
    return names[::-1], w


def icall(E, st, n, args):
    names, w = gfw(E, st, n)
    loc = n['loc']
    if 'm_gf' not in names:
        yield from E.hooks['icall'](E, st, n, args, names)
        return
    V = [E.val(st, a) for a in args]
    op = [x for x in names if x in ('multiply_region', 'multiply', 'divide')]
    if op == ['multiply_region']:
        _, src, dst, c, ln, add = V
        E.oblige(st, ln >= 0, 'region length is not negative', loc, tags=['C08'])
        lim = gfmax(w)
        E.oblige(st, And(c >= 0, c < lim), 'coefficient belongs to the field', loc)
        E.oblige(st, Implies(w == 16, ln % 2 == 0), 'region holds whole words', loc)
        E.oblige(st, Implies(w == 32, ln % 4 == 0), 'region holds whole words', loc)
        addb = simplify(add != 0)
        if isinstance(dst, VPtr) and dst.size is not None:
            if src.size is None or simplify(ln).as_long() > min(src.size, dst.size) or not is_false(addb):
                raise Break('region of scalars')
            x = E.read(st, src.lv)
            r = FromG(act(ToG(c), ToG(x)))
            st.assume(r >= 0, r < 2 ** (8 * dst.size))
            if simplify(ln).as_long() != dst.size:
                r = fint('partial')
                st.assume(r >= 0, r < 2 ** (8 * dst.size))
            E.write(st, dst.lv, r)
            yield st, VOID
            return
        slv, sv, so = rng(E, st, src)
        dlv, dv, do = rng(E, st, dst)
        E.oblige(st, And(so >= 0, so + ln <= sv.n), 'multiply_region reads within the buffer', loc, tags=['C08'])
        E.oblige(st, And(do >= 0, do + ln <= dv.n), 'multiply_region writes within the buffer', loc, tags=['C08'])
        a, d = sv.comps[''], dv.comps['']
        r = fconst('region', BytesS)
        i = Int('i')
        st.assume(ForAll([i], Implies(Or(i < do, i >= do + ln), r[i] == d[i]), patterns=[r[i]]))
        sc = act(ToG(c), cell(a, so))
        new = sc if is_false(addb) else (sc ^ cell(d, do) if is_true(addb) else If(addb, sc ^ cell(d, do), sc))
        st.assume(cell(r, do) == If(KPOS + WORD <= ln, new, cell(d, do)))
        E.write(st, dlv, VVec(dv.ty, dv.n, {'': r}))
        yield st, VOID
    elif op == ['multiply']:
        _, x, y = V
        lim = gfmax(w)
        E.oblige(st, And(x < lim, y < lim), 'operands belong to the field', loc)
        r = FromG(gm(ToG(x), ToG(y)))
        st.assume(r >= 0, r < lim, Implies(w == 16, And(gm(ToG(x), ToG(y)) == act(ToG(x), ToG(y)), gm(ToG(y), ToG(x)) == act(ToG(y), ToG(x)))))
        yield st, r
    elif op == ['divide']:
        _, x, y = V
        lim = gfmax(w)
        E.oblige(st, And(y > 0, y < lim, x >= 0, x < lim), 'division operands belong to the field, the divisor is not zero', loc)
        if is_int_value(simplify(x)) and simplify(x).as_long() == 1:
            r = FromG(ginv(ToG(y)))
        else:
            r = FromG(gm(ToG(x), ginv(ToG(y))))
        st.assume(r >= 0, r < lim, Implies(x != 0, r != 0))
        yield st, r
    else:
        raise Break('gf function %s' % names)


def gfmax(w):
    return If(w == 4, IntVal(16), If(w == 8, IntVal(256), If(w == 16, IntVal(65536), IntVal(2 ** 32))))


def delete(E, st, p, n):
    if isinstance(p, VPtr):
        if p.lv is None or is_true(simplify(p.null)):
            yield st, VOID
            return
        h = E.hooks.get('delete')
        if h:
            h(E, st, p, n)
        yield st, VOID
        return
    if isinstance(p, VOpaque):
        yield st, VOID
        return
    raise Break('delete %r' % p)
