"""invert: exact inversion of a matrix over the field, or a proof of singularity (C10)."""
from z3 import *
from ..theory import *
from ..values import *
from ..ctypes_ import Ty, Break
from ..verify import Contract, View
from ..lib import gfmax
from .. import lib
from . import gf

INV = 'ntc::detail::invert'
# arbitrary vectors: y, its image b, a candidate kernel vector x, an arbitrary row q
Y, BV, X, Q = Const('Y', GArr), Const('BV', GArr), Const('X', GArr), Int('Q')
r_, c_, p_ = Int('r'), Int('c'), Int('p')


def row(n, i):
    return imul(n, i)


def cells(A, n, f):
    """f(r, c, value) for each place of a matrix."""
    c = p_ - row(n, r_)
    return ForAll([r_, p_], Implies(And(0 <= r_, r_ < n, 0 <= c, c < n), f(r_, c, A[p_])), patterns=[MultiPattern(row(n, r_), A[p_])])


def in_field(A, n, w):
    return cells(A, n, lambda r, c, v: And(v >= 0, v < gfmax(w)))


def rows(n, f, *pats):
    """f(r) for every row r."""
    g = Implies(And(0 <= r_, r_ < n), f(r_))
    return And([ForAll([r_], g, patterns=[p(r_)]) for p in pats])


def image(A, n, y, b):
    return rows(n, lambda r: b[r] == dot(A, row(n, r), y, n), lambda r: b[r], lambda r: dot(A, row(n, r), y, n))


def solved(A, n, y, b):
    return rows(n, lambda r: dot(A, row(n, r), b, n) == y[r], lambda r: dot(A, row(n, r), b, n), lambda r: y[r])


def shape(A, n, i):
    """Upper triangular with a unit diagonal as far as the first i columns are concerned."""
    return cells(A, n, lambda r, c, v: Implies(And(c < i, c <= r), v == If(c == r, IntVal(1), IntVal(0))))


def column_zero(A, n, c, lo, hi):
    return cells(A, n, lambda r, cc, v: Implies(And(cc == c, lo <= r, r < hi), v == 0))


def cleared(A, n, i):
    """Zero above the diagonal in the columns beyond i."""
    return cells(A, n, lambda r, c, v: Implies(And(c > i, r < c), v == 0))


class MV:
    def __init__(self, cx, st, k):
        v = View(cx.E, st, cx.args[k])
        self.n, self.a, self.len = v.m_dimension, v.m_vec.comps[''], v.m_vec.n


def iv_setup(cx):
    cx.E.dims = {cx.arg(1).m_dimension.get_id(), cx.arg(2).m_dimension.get_id()}
    cx.E.matrices = [a.f('m_vec') for a in cx.args[1:3]]
    cx.E.dimension = cx.arg(1).m_dimension
    # one term for the common dimension
    cx.E.write(cx.st, cx.args[2].f('m_dimension'), cx.arg(1).m_dimension)


def iv_req(cx):
    m, i = MV(cx, cx.st, 1), MV(cx, cx.st, 2)
    w = cx.arg(0).m_w
    out = gf.inv(cx.arg(0)) + [('dimensions', And(m.n == i.n, m.n >= 1, m.n < 2 ** 32, imul(m.n, m.n) < 2 ** 48, m.len == imul(m.n, m.n), i.len == imul(m.n, m.n))),
                               ('coefficients in the field', in_field(m.a, m.n, w))]
    if cx.mode == 'verify':
        out += [('ghost: b is the image of y', image(m.a, m.n, Y, BV)), ('ghost: a row', And(0 <= Q, Q < m.n))]
    return out


def iv_post(cx):
    m0, m, i = MV(cx, cx.pre, 1), MV(cx, cx.st, 1), MV(cx, cx.st, 2)
    n = m0.n
    w = cx.oarg(0).m_w
    res = cx.E.val(cx.st, cx.r)
    out = [('dimensions', And(m.n == n, i.n == n, m.len == imul(n, n), i.len == imul(n, n))),
           ('coefficients of the inverse in the field', Implies(Not(res.has), in_field(i.a, n, w))),
           ('the reported index designates a column', Implies(res.has, And(res.v >= 0, res.v < n)))]
    if cx.mode == 'verify':
        out += [('success: the result times the matrix is the identity', Implies(Not(res.has), solved(i.a, n, Y, BV)))]
        idx = ints(cx.E, cx.st)
        out += [('failure: the kernel of what is left is in the kernel of the matrix', Implies(res.has, Implies(rows(n, lambda r: dot(m.a, row(n, r), X, n) == ZERO, lambda r: dot(m.a, row(n, r), X, n)), dot(m0.a, row(n, Q), X, n) == ZERO))),
                ('failure: what is left has a column without pivot', Implies(res.has, Or([And(0 <= v, v < n, shape(m.a, n, v), column_zero(m.a, n, v, v, n)) for v in idx])))]
    else:
        for y in cx.E.vectors(cx) if getattr(cx.E, 'vectors', None) else []:
            b = fconst('b', GArr)
            out += [('image', image(m0.a, n, y, b)), ('solution', Implies(Not(res.has), solved(i.a, n, y, b)))]
    return out


def ints(E, st):
    seen, out = set(), []
    for r, v in st.store.items():
        if isinstance(v, ExprRef) and is_int(v) and not r.startswith('$') and not (is_app(v) and v.decl().eq(imul)) and not is_int_value(v):
            if v.get_id() not in seen:
                seen.add(v.get_id())
                out.append(v)
    return out


def body_writes(L, lv):
    """The elements of a vector that one iteration writes: [(index, value)] for each way through the body, in terms of a
    loop head whose state is also returned; None if they are not plain assignments."""
    from .. import loops
    E = L.E
    s = L.s0.copy()
    E.quiet += 1
    sd, sw = E.discovering, E.writes
    E.discovering = True
    out = []
    try:
        for r, p in sorted(L.mods, key=repr):
            loops.havoc(E, s, r, p)
        h = s.copy()
        a0 = E.read(s, lv).comps['']
        for s2, k, o in loops.iteration(E, s, L.n, L.rf):
            if k != 'next':
                continue
            a, ws = E.read(s2, lv).comps[''], []
            while not a.eq(a0):
                if a.decl().kind() != Z3_OP_STORE:
                    return None
                ws.append((a.arg(1), a.arg(2), s2))
                a = a.arg(0)
            out.append(ws)
    finally:
        E.quiet -= 1
        E.discovering, E.writes = sd, sw
    return h, a0, out


def occurs(t, e):
    todo, seen = [e], set()
    while todo:
        x = todo.pop()
        if x.eq(t):
            return True
        if x.get_id() not in seen:
            seen.add(x.get_id())
            todo.extend(x.children())
    return False


def decoded(st):
    """The state, with toG(c) == t for each c == fromG(t) known in it."""
    s = st.copy()
    for x in st.pc:
        if is_eq(x) and is_app(x.arg(1)) and x.arg(1).decl().eq(fromG):
            s.assume(toG(x.arg(0)) == x.arg(1).arg(0))
    return s


def iv_pool(L):
    from ..loops import vars_in
    E, s0 = L.E, L.s0
    if not getattr(E, 'matrices', None):
        return []
    n = E.dimension
    lm, li = E.matrices
    w = [v for v in E.start.store.values() if isinstance(v, VStruct) and 'm_w' in v.fields][0].fields['m_w']
    mat = lambda s: E.read(s, lm).comps['']
    inv = lambda s: E.read(s, li).comps['']
    m0, i0, M0 = mat(s0), inv(s0), mat(E.start)
    touches = lambda lv: any(r == lv.root and (p == lv.path[:len(p)] or lv.path == p[:len(lv.path)]) for r, p in L.mods)
    tm, ti = touches(lm), touches(li)
    out = []
    mods = [lv for lv, v in L.ints]
    g = lambda lv: (lambda s, lv=lv: E.read(s, lv))
    used, idx, num = set(), [], []
    vars_in(L.n, used)

    def add(l, v):
        if not v.eq(n) and not is_int_value(v) and all(not v.eq(x) for x in l):
            l.append(v)
    for i in sorted(used, key=str):
        lv = s0.env.get(i)
        if lv is None or lv.path or (lv.root, ()) in L.mods:
            continue
        v = s0.store.get(lv.root)
        if not (isinstance(v, ExprRef) and is_int(v)):
            continue
        if is_app(v) and v.decl().eq(imul):
            add(idx, v.arg(1))
        elif E.quick(s0, And(v >= 0, v < n)):
            add(idx, v)
        else:
            add(num, v)
    nm = lambda v: str(v).split('!')[0][:20]
    ln = lambda lv: repr(lv).split('!')[0]
    G_ = 'guess'
    if tm:
        out.append(('length of the matrix', lambda s: E.read(s, lm).n == imul(n, n)))
        out.append(('matrix in the field', lambda s: in_field(mat(s), n, w)))
    if ti:
        out.append(('length of the inverse', lambda s: E.read(s, li).n == imul(n, n)))
        out.append(('inverse in the field', lambda s: in_field(inv(s), n, w)))
    unit = lambda s, dom: cells(inv(s), n, lambda r, c, v: Implies(dom(r, c), v == If(r == c, IntVal(1), IntVal(0))))
    ops = []
    agree = lambda m, i: rows(n, lambda r: dot(m, row(n, r), Y, n) == dot(i, row(n, r), BV, n), lambda r: dot(m, row(n, r), Y, n), lambda r: dot(i, row(n, r), BV, n))
    kernel = lambda m: Implies(rows(n, lambda r: dot(m, row(n, r), X, n) == ZERO, lambda r: dot(m, row(n, r), X, n)), dot(M0, row(n, Q), X, n) == ZERO)
    if tm or ti:
        ops.append(('rows of both matrices agree', lambda s: agree(mat(s), inv(s))))
    if tm:
        ops.append(('kernel', lambda s: kernel(mat(s))))
        out.append(('shape', lambda s: shape(mat(s), n, n), G_))
        for v in idx:
            out += [('shape up to %s' % nm(v), lambda s, v=v: shape(mat(s), n, v), G_),
                    ('shape with %s' % nm(v), lambda s, v=v: cells(mat(s), n, lambda r, c, x: Implies(And(r == v, c <= v), x == If(c == v, IntVal(1), IntVal(0)))), G_),
                    ('cleared beyond %s' % nm(v), lambda s, v=v: cleared(mat(s), n, v), G_)]
    for lv in mods:
        c, l = g(lv), ln(lv)
        out += [('%s within the dimension' % l, lambda s, c=c: And(c(s) >= 0, c(s) <= n), G_), ('%s below the dimension' % l, lambda s, c=c: And(c(s) >= 0, c(s) < n), G_)]
        if ti and not tm and m0.eq(M0):
            out += [('identity: columns before %s' % l, lambda s, c=c: unit(s, lambda r, cc: cc < c(s)), G_), ('identity: rows before %s' % l, lambda s, c=c: unit(s, lambda r, cc: r < c(s)), G_)]
            for v in idx:
                out += [('identity: columns before %s, and it before %s' % (nm(v), l), lambda s, c=c, v=v: unit(s, lambda r, cc: Or(cc < v, And(cc == v, r < c(s)))), G_),
                        ('identity: rows before %s, and it before %s' % (nm(v), l), lambda s, c=c, v=v: unit(s, lambda r, cc: Or(r < v, And(r == v, cc < c(s)))), G_)]
        if tm:
            out += [('shape before %s' % l, lambda s, c=c: shape(mat(s), n, c(s)), G_), ('cleared beyond %s' % l, lambda s, c=c: cleared(mat(s), n, c(s)), G_)]
        for v in idx:
            out += [('%s beyond %s' % (l, nm(v)), lambda s, c=c, v=v: c(s) > v, G_), ('%s not beyond %s' % (l, nm(v)), lambda s, c=c, v=v: c(s) <= v, G_)]
            out += [('column %s cleared before %s' % (nm(v), l), lambda s, c=c, v=v: column_zero(mat(s), n, v, 0, c(s)), G_),
                    ('column %s cleared below it before %s' % (nm(v), l), lambda s, c=c, v=v: column_zero(mat(s), n, v, v + 1, c(s)), G_)]
            if not tm:
                out += [('column %s empty from it to %s' % (nm(v), l), lambda s, c=c, v=v: column_zero(mat(s), n, v, v, c(s)), G_)]
            for l2 in mods:
                if l2 is not lv:
                    out.append(('%s is in column %s before row %s' % (l, nm(v), ln(l2)), lambda s, c=c, v=v, c2=g(l2): And(c(s) + n == row(n, c2(s)) + v, Implies(And(0 <= c2(s), c2(s) < n), row(n, c2(s)) + n <= imul(n, n))), G_))
    # operations on rows, as one iteration does them
    for (lv_, arr, a0, on, vecs, an) in ((lm, mat, m0, tm, (Y, X), 'matrix'), (li, inv, i0, ti, (BV,), 'inverse')):
        if not on:
            continue
        bw = body_writes(L, lv_)
        if not bw:
            continue
        h, ah, ways = bw
        for ws in ways:
            for cl in mods:
                c, cv, l = g(cl), E.read(h, cl), ln(cl)
                if not isinstance(cv, ExprRef):
                    continue
                at_ = lambda p, s2: [a for a in idx if E.quick(s2, p == row(n, a) + cv)]
                dst = [at_(p, s2) for p, v, s2 in ws]
                d0 = lambda r, y, k, a0=a0: dot(a0, r, y, k)

                def put(nm_, el, dots, hint=None, arr=arr, a0=a0, vecs=vecs, an=an):
                    if ops:      # rows do not agree while one of them is being changed
                        ops.clear()
                        out.append(('rows of both matrices agreed', lambda s: agree(m0, i0)))
                        out.append(('kernel before', lambda s: kernel(m0)))
                        out.extend(('shape before, up to %s' % nm(v), lambda s, v=v: shape(m0, n, v), G_) for v in idx)
                    out.append(('%s: %s: elements' % (an, nm_), lambda s: ForAll([p_], arr(s)[p_] == el(s, p_), patterns=[arr(s)[p_], a0[p_]])))
                    for v, f in dots:
                        for y in vecs:
                            out.append(('%s: %s: row %s times %s' % (an, nm_, nm(v), y), lambda s, v=v, f=f, y=y: And(dot(arr(s), row(n, v), y, n) == f(s, y), *([hint(s, y)] if hint else []))))
                    rs = [v for v, f in dots]
                    for y in vecs:
                        out.append(('%s: %s: other rows times %s' % (an, nm_, y), lambda s, y=y: rows(n, lambda r: Implies(And([r != v for v in rs]), dot(arr(s), row(n, r), y, n) == dot(a0, row(n, r), y, n)), lambda r: dot(arr(s), row(n, r), y, n), lambda r: dot(a0, row(n, r), y, n))))
                if len(ws) == 2 and all(len(d) == 1 for d in dst) and not dst[0][0].eq(dst[1][0]):
                    a, b = sorted((dst[0][0], dst[1][0]), key=str)
                    ra, rb = row(n, a), row(n, b)
                    put('exchange of %s and %s before %s' % (nm(a), nm(b), l),
                        lambda s, p, ra=ra, rb=rb, a0=a0, c=c: If(And(ra <= p, p < ra + c(s)), a0[p - ra + rb], If(And(rb <= p, p < rb + c(s)), a0[p - rb + ra], a0[p])),
                        [(a, lambda s, y, ra=ra, rb=rb, c=c, d0=d0: d0(ra, y, n) ^ d0(ra, y, c(s)) ^ d0(rb, y, c(s))), (b, lambda s, y, ra=ra, rb=rb, c=c, d0=d0: d0(rb, y, n) ^ d0(ra, y, c(s)) ^ d0(rb, y, c(s)))])
                if len(ws) == 1 and len(dst[0]) == 1:
                    b = dst[0][0]
                    rb = row(n, b)
                    p, v, s2 = ws[0]
                    s2 = decoded(s2)
                    prod = lambda q, e: [gm(toG(q), toG(e)), gm(toG(e), toG(q))] + ([toG(e)] if is_int_value(q) else [])
                    for q in num + [IntVal(1)]:
                        for a in idx:
                            ra = row(n, a)
                            if not a.eq(b) and E.quick(s2, Or([v == fromG(t) for x in prod(q, ah[ra + cv]) for t in (x ^ toG(ah[p]), toG(ah[p]) ^ x)])):
                                put('%s times %s added to %s before %s' % (nm(q), nm(a), nm(b), l),
                                    lambda s, p, ra=ra, rb=rb, q=q, a0=a0, c=c: If(And(rb <= p, p < rb + c(s)), fromG(toG(a0[p]) ^ gm(toG(q), toG(a0[p - rb + ra]))), a0[p]),
                                    [(b, lambda s, y, ra=ra, rb=rb, q=q, c=c, d0=d0: d0(rb, y, n) ^ act(toG(q), d0(ra, y, c(s))))],
                                    lambda s, y, ra=ra, q=q, c=c, a0=a0, d0=d0: And(men(d0(ra, y, n)), men(act(gm(toG(q), toG(a0[ra + c(s) - 1])), y[c(s) - 1]))))
                        if E.quick(s2, Or([v == fromG(x) for x in prod(q, ah[p])])):
                            put('%s scaled by %s before %s' % (nm(b), nm(q), l),
                                lambda s, p, rb=rb, q=q, a0=a0, c=c: If(And(rb <= p, p < rb + c(s)), fromG(gm(toG(a0[p]), toG(q))), a0[p]),
                                [(b, lambda s, y, rb=rb, q=q, c=c, d0=d0: d0(rb, y, n) ^ d0(rb, y, c(s)) ^ act(toG(q), d0(rb, y, c(s))))],
                                lambda s, y, rb=rb, q=q, d0=d0: men(act(ginv(toG(q)), act(toG(q), d0(rb, y, n)))))
    out = ops + out
    seen, res = set(), []
    for x in out:
        if x[0] not in seen:
            seen.add(x[0])
            res.append(x)
    return res


def contracts():
    return gf.contracts() + [
        Contract(INV, setup=iv_setup, requires=iv_req, ensures=iv_post, modifies=lambda cx: [cx.args[1].f('m_vec'), cx.args[2].f('m_vec')], pool=iv_pool, single=True)]


def prepare(E):
    E.imul = True
    E.forget = True


# ---------- lemmas -----------------------------------------------------------------------------------------------------
def lemma_dot(E):
    from ..engine import St
    d = Function('dot.def', BytesS, I, GArr, I, G)
    A, y, b, k, p, v, n, r = fconst('A', BytesS), fconst('y', GArr), fint('b'), fint('k'), fint('p'), fint('v'), fint('n'), fint('r')
    gv = fconst('gv', G)

    def ob(hyps, g, nm):
        s = St()
        s.assume(*hyps)
        E.oblige(s, g, nm, 'induction', kind='lemma')
    A2, y2 = Store(A, p, v), Store(y, p, gv)
    ob([dot_def(A, b, y, k, d), dot_def(A2, b, y, k, d)], dot_store(A, p, v, b, y, IntVal(0), d), 'dot-store: base')
    ob([k >= 0, dot_def(A, b, y, k, d), dot_def(A2, b, y, k, d), dot_store(A, p, v, b, y, k, d)], dot_store(A, p, v, b, y, k + 1, d), 'dot-store: step')
    ob([dot_def(A, b, y, k, d), dot_def(A, b, y2, k, d)], dot_vstore(A, b, y, p, gv, IntVal(0), d), 'dot-vector-store: base')
    ob([k >= 0, dot_def(A, b, y, k, d), dot_def(A, b, y2, k, d), dot_vstore(A, b, y, p, gv, k, d)], dot_vstore(A, b, y, p, gv, k + 1, d), 'dot-vector-store: step')
    unit = lambda k: d(A, b, y, k) == If(k > r, y[r], ZERO)
    ob([dot_def(A, b, y, k, d), 0 <= r], unit(IntVal(0)), 'dot-unit: base')
    ob([0 <= r, r < n, k >= 0, k < n, dot_def(A, b, y, k, d), A[b + k] == If(k == r, IntVal(1), IntVal(0)), unit(k)], unit(k + 1), 'dot-unit: step')


def lemma_kernel(E):
    """A matrix with a column i without pivot has a kernel vector with 1 at i: v(i) is the i-th unit vector, and v(k-1) is
    v(k) with row k-1 times v(k) at k-1. Claim for k: 1 at i, 0 before k and beyond i, rows from k on vanish."""
    from ..engine import St
    d = Function('dot.def', BytesS, I, GArr, I, G)
    A, n, i, k, v = fconst('A', BytesS), fint('n'), fint('i'), fint('k'), fconst('v', GArr)
    one = toG(IntVal(1))
    c = Int('c')

    def claim(v, k, r):
        """The claim, for the row r (arbitrary)."""
        return And(v[i] == one, ForAll([c], Implies(Or(c < k, c > i), v[c] == ZERO), patterns=[v[c]]), Implies(And(k <= r, r < n), d(A, imul(n, r), v, n) == ZERO))

    def ob(hyps, g, nm):
        s = St()
        s.assume(*hyps)
        E.oblige(s, g, nm, 'induction', kind='lemma')
    r = fint('r')
    hyp = [0 <= i, i < n, shape(A, n, i), column_zero(A, n, i, i, n)]
    # base: the unit vector; each row from i on has zeros up to column i: induction on the number of columns
    e, j = fconst('e', GArr), fint('j')
    he = [e[i] == one, ForAll([c], Implies(c != i, e[c] == ZERO), patterns=[e[c]])]
    b = imul(n, r)
    ob(hyp + he + [i <= r, r < n, dot_def(A, b, e, j, d)], d(A, b, e, 0) == ZERO, 'kernel: base, no column')
    ob(hyp + he + [i <= r, r < n, 0 <= j, j < n, dot_def(A, b, e, j, d), d(A, b, e, j) == ZERO], d(A, b, e, j + 1) == ZERO, 'kernel: base, one more column')
    ob(hyp + he + [Implies(And(i <= r, r < n), d(A, imul(n, r), e, n) == ZERO)], claim(e, i, r), 'kernel: base')
    # step
    b1 = imul(n, k - 1)
    v2 = Store(v, k - 1, d(A, b1, v, n))
    ob(hyp + [0 < k, k <= i, claim(v, k, r), dot_vstore(A, imul(n, r), v, k - 1, d(A, b1, v, n), n, d), dot_vstore(A, b1, v, k - 1, d(A, b1, v, n), n, d)], claim(v2, k - 1, r), 'kernel: step')


def lemmas():
    return [('dot', lemma_dot, ['C10', 'C01', 'C04', 'C08', 'C15']), ('kernel', lemma_kernel, ['C10'])]
