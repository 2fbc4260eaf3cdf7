"""detail::decoder: recovery, order, bookkeeping (C01-C04, C08, C15)."""
from z3 import *
from ..theory import *
from ..values import *
from ..ctypes_ import Ty, Break
from ..verify import Contract, View
from .. import lib, solve
from . import gf, packet as pk

DD = 'ntc::detail::decoder'
SRC, REP = 'ntc::detail::decoder_source', 'ntc::detail::decoder_repair'
SYM = 16                      # offset of the symbol in the buffer of a packet
ORD = ['C02', 'C03', 'C04']
VAL = ['C01']


# ---------- views ------------------------------------------------------------------------------------------
class D:
    """The state of a decoder."""
    def __init__(self, E, st, lv):
        g = lambda f: E.read(st, lv.f(f))
        r, s, m = g('m_repairs'), g('m_sources'), g('m_missing_sources')
        self.R, self.I, self.rid, self.E, self.SS = r.dom, r.comps['m_sources_ids.'], r.comps['m_id.'], r.comps['m_encoded_size.'], r.comps['m_symbol_size.']
        self.rn, self.ra = r.comps['m_symbol_buffer.m_buffer.n'], r.comps['m_symbol_buffer.m_buffer.a.']
        self.S, self.sid, self.ssz, self.sn, self.sa = s.dom, s.comps['m_id.'], s.comps['m_symbol_size.'], s.comps['m_symbol_buffer.m_buffer.n'], s.comps['m_symbol_buffer.m_buffer.a.']
        self.M, self.MS = m.dom, m.comps['']
        self.io, self.fm = g('m_in_order'), g('m_first_missing_source_in_order')
        o = g('m_ordered_sources')
        self.O, self.op = o.dom, o.comps['']
        l = g('m_last_id')
        self.has, self.last = l.has, l.v
        self.D = st.store.get('$D')
        self.useless, self.failed, self.decoded = g('m_nb_useless_repairs'), g('m_nb_failed_full_decodings'), g('m_nb_decoded')
        self.w = E.read(st, lv.f('m_gf').f('m_w'))


def dn(cx):
    return D(cx.E, cx.st, cx.this)


def do(cx):
    return D(cx.E, cx.pre, cx.this)


r_, x_, y_ = Int('r'), Int('x'), Int('y')


def allr(f, pats):
    return ForAll([r_], f, patterns=pats)


def allx(f, pats):
    return ForAll([x_], f, patterns=pats)


# ---------- invariant ----------------------------------------------------------------------------------------
def links(d, less=None, unreg=None):
    """less: identifier whose registration may be empty; unreg: a repair that is not registered everywhere yet."""
    Ir, MSx = d.I[r_], d.MS[x_]
    out = [('held repairs list something', allr(Implies(d.R[r_], And(card(Ir) >= 1, fin(Ir), d.rid[r_] == r_, r_ >= 0, r_ < 2 ** 32)), [d.R[r_]])),
           ('held repairs list unknown sources, and are registered with them', ForAll([r_, x_], Implies(And(d.R[r_], Ir[x_]), And(d.M[x_], MSx[r_])), patterns=[Ir[x_]])),
           ('registrations designate held repairs', ForAll([x_, r_], Implies(And(d.M[x_], MSx[r_]), And(d.R[r_], Ir[x_])), patterns=[MSx[r_]])),
           ('unknown sources are registered', allx(Implies(And(d.M[x_], *([x_ != less] if less is not None else [])), card(MSx) >= 1), [d.M[x_]])),
           ('registrations are finite', allx(Implies(d.M[x_], fin(MSx)), [d.M[x_]])),
           ('no source is known and unknown', allx(Implies(d.M[x_], Not(d.S[x_])), [d.M[x_]])),
           ('sources are stored under their identifier', allx(Implies(d.S[x_], And(d.sid[x_] == x_, x_ >= 0, x_ < 2 ** 32)), [d.S[x_]]))]
    return out


def recent(d):
    return [('nothing outdated is held', allx(Implies(And(d.has, d.S[x_]), x_ >= d.last), [d.S[x_]])),
            ('no unknown source is outdated', allx(Implies(And(d.has, d.M[x_]), x_ >= d.last), [d.M[x_]]))]


def shapes(d):
    return [('the buffers of sources hold their symbol', allx(Implies(d.S[x_], And(d.sn[x_] >= SYM + d.ssz[x_], d.sn[x_] < 2 ** 47, d.ssz[x_] >= 0, d.ssz[x_] < 65536)), [d.S[x_]])),
            ('the buffers of repairs hold their symbol', allr(Implies(d.R[r_], And(d.rn[r_] >= SYM + d.SS[r_], d.rn[r_] < 2 ** 47, d.SS[r_] >= 0, d.SS[r_] < 65536)), [d.R[r_]]))]


def order(d):
    lo = lambda x: Implies(d.has, x >= d.last)
    return [('what was handed over and is not outdated is known', allx(Implies(And(d.D[x_], lo(x_)), d.S[x_]), [d.D[x_]]), ORD),
            ('without order, what is known was handed over', allx(Implies(And(d.S[x_], Not(d.io)), d.D[x_]), [d.S[x_]]), ORD),
            ('in order, only data before the first missing one were handed over', allx(Implies(And(d.io, d.D[x_]), x_ < d.fm), [d.D[x_]]), ORD),
            ('in order, data before the first missing one were handed over', allx(Implies(And(d.io, d.S[x_], x_ < d.fm), d.D[x_]), [d.S[x_]]), ORD),
            ('in order, nothing was skipped that is not outdated', both(Implies(And(d.io, 0 <= x_, x_ < d.fm, lo(x_)), d.D[x_]), [d.D[x_], d.S[x_]]), ORD),
            ('in order, the first missing datum is missing', Implies(d.io, And(Not(d.S[d.fm]), lo(d.fm), d.fm >= 0)), ORD),
            ('in order, exactly the later data are withheld', allx(Implies(d.io, d.O[x_] == And(d.S[x_], x_ > d.fm)), [d.O[x_]]), ORD),
            ('in order, the later data are withheld', allx(Implies(And(d.io, d.S[x_], x_ > d.fm), d.O[x_]), [d.S[x_]]), ORD),
            ('withheld data are known', allx(Implies(d.O[x_], And(d.S[x_], d.op[x_] == x_)), [d.O[x_]])),
            ('without order nothing is withheld', allx(Implies(Not(d.io), Not(d.O[x_])), [d.O[x_]]))]


def truth_s(id_, sz, a):
    return And(sz == Sz(id_), Implies(KPOS < sz, cell(a, IntVal(SYM)) == S(id_)))


def truth_r(id_, A, e, ss, a):
    return And(toG(e) == lsz(id_, A), If(KPOS < ss, cell(a, IntVal(SYM)), ZERO) == lin(id_, A), gf.whole(ss))


def values(d):
    return [('known sources are what was sent', allx(Implies(d.S[x_], truth_s(x_, d.ssz[x_], d.sa[x_])), [d.S[x_]]), VAL),
            ('held repairs are combinations of what was sent', allr(Implies(d.R[r_], truth_r(r_, d.I[r_], d.E[r_], d.SS[r_], d.ra[r_])), [d.R[r_]]), VAL),
            ('held repairs are as long as what they combine', ForAll([r_, x_], Implies(And(d.R[r_], d.I[r_][x_]), Sz(x_) <= d.SS[r_]), patterns=[d.I[r_][x_]]), VAL)]


def field(d, cx):
    return gf.inv(View(cx.E, cx.st, cx.this.f('m_gf'))) + [('field size within the contracts', gf.valid_w(d.w), VAL)]


def inv(cx, d, **k):
    return field(d, cx) + links(d, **k) + recent(d) + shapes(d) + order(d) + values(d)


def several(d):
    return ('every held repair has several unknown sources', allr(Implies(d.R[r_], card(d.I[r_]) >= 2), [d.R[r_]]))


def rest(d):
    return [several(d), ('there are more unknown sources than repairs', Or(card(d.M) > card(d.R), And(card(d.M) == 0, card(d.R) == 0)), ['C04'])]


def named(p, items):
    return [(p + ': ' + i[0],) + tuple(i[1:]) for i in items]


def post_inv(cx, **k):
    return named('invariant', inv(cx, dn(cx), **k))


# ---------- callback -----------------------------------------------------------------------------------------
def callback(E, st, f, obj, args, n):
    s = View(E, st, args[0]) if isinstance(args[0], Lv) else None
    if s is None:
        raise Break('callback argument')
    Dn = st.store.get('$D')
    loc = n['loc']
    id_ = s.m_id
    if E.prop in (None, 'C02'):
        E.oblige(st, Not(Dn[id_]), 'no datum is handed over twice', loc, kind='callback')
    if E.prop in (None, 'C03'):
        io = E.read(st, Lv(obj.root, obj.path[:-1]).f('m_in_order'))
        E.oblige(st, Implies(io, allx(Implies(Dn[x_], x_ < id_), [Dn[x_]])), 'data are handed over in order', loc, kind='callback')
    if E.prop in (None, 'C01'):
        E.oblige(st, truth_s(id_, s.m_symbol_size, s.m_symbol_buffer.m_buffer.comps['']), 'what is handed over is what was sent', loc, kind='callback')
    E.oblige(st, s.m_symbol_buffer.m_buffer.n >= SYM + s.m_symbol_size, 'the buffer handed over holds the symbol', loc)
    E.write(st, Lv('$D'), Store(Dn, id_, BoolVal(True)))
    yield st, VOID


def ghosts(cx):
    if '$D' not in cx.st.store:
        cx.st.store['$D'] = fconst('D', SetS)
        cx.E.roottypes['$D'] = None


def prepare(E):
    E.hooks['std::function'] = callback
    E.fin = True


# ---------- usable_size, create, remove data ----------------------------------------------------------------------
def minz(a, b):
    return If(a <= b, a, b)


def us_post(cx):
    m = minz(cx.oarg(0), cx.oarg(1).m_symbol_size)
    return [('not longer than either', And(cx.res >= 0, cx.res <= m)), ('whole words', gf.whole(cx.res)), ('nothing but a partial word is left', Implies(gf.whole(m), cx.res == m)), ]


def gfreq(cx):
    return gf.inv(View(cx.E, cx.st, cx.this.f('m_gf')))


def rep_shape(r):
    return And(r.m_symbol_buffer.m_buffer.n >= SYM + r.m_symbol_size, r.m_symbol_buffer.m_buffer.n < 2 ** 47)


def cr_req(cx):
    r = cx.arg(0)
    d = dn(cx)
    A = r.m_sources_ids.a
    return field(d, cx) + [('one source is left', card(A) == 1), ('buffer', rep_shape(r)),
                           ('the repair is a combination of what was sent', And(truth_r(r.m_id, A, r.m_encoded_size, r.m_symbol_size, r.m_symbol_buffer.m_buffer.comps['']), Sz(mn(A)) <= r.m_symbol_size, A[mn(A)]), VAL)]


def cr_post(cx):
    s = cx.res
    A = cx.oarg(0).m_sources_ids.a
    b = s.m_symbol_buffer.m_buffer
    return [('the source is the missing one', s.m_id == mn(A)), ('buffer', And(b.n >= SYM + s.m_symbol_size, b.n < 2 ** 47)),
            ('the source is what was sent', truth_s(mn(A), s.m_symbol_size, b.comps['']), VAL)]


def rd_req(cx):
    s, r = cx.arg(0), cx.arg(1)
    return field(dn(cx), cx) + [('several sources are left', card(r.m_sources_ids.a) > 1, ['C08']), ('buffers', And(rep_shape(r), rep_shape(s))), ('the source is what was sent', truth_s(s.m_id, s.m_symbol_size, s.m_symbol_buffer.m_buffer.comps['']), VAL),
                                ('the repair is as long as the source', And(s.m_symbol_size <= r.m_symbol_size, gf.whole(r.m_symbol_size)), VAL)]


def rd_post(cx):
    s, r0, r = cx.oarg(0), cx.oarg(1), cx.arg(1)
    c = toG(coef(r0.m_id, s.m_id))
    c0, c1 = (cell(o.m_symbol_buffer.m_buffer.comps[''], IntVal(SYM)) for o in (r0, r))
    return [('identifiers', And(r.m_id == r0.m_id, r.m_sources_ids.a == r0.m_sources_ids.a, r.m_symbol_size == r0.m_symbol_size, r.m_symbol_buffer.m_buffer.n == r0.m_symbol_buffer.m_buffer.n)),
            ('the size of the source is taken out', toG(r.m_encoded_size) == toG(r0.m_encoded_size) ^ act(c, toG(s.m_symbol_size)), VAL),
            ('the source is taken out', Implies(KPOS < r0.m_symbol_size, c1 == c0 ^ act(c, S(s.m_id))), VAL)]


def base_contracts():
    return [
        Contract(DD + '::usable_size', requires=gfreq, ensures=us_post),
        Contract(DD + '::create_source_from_repair', setup=ghosts, requires=cr_req, ensures=cr_post, modifies=lambda cx: [cx.this.f('m_nb_decoded')]),
        Contract(DD + '::remove_source_data_from_repair', setup=ghosts, requires=rd_req, ensures=rd_post, modifies=lambda cx: [cx.args[1]]),
    ]


def contracts():
    return [c for c in gf.contracts()] + base_contracts()


# ---------- remove_repair ---------------------------------------------------------------------------------------
T = Lv('this')


def both(f, pats):
    return And([ForAll([x_], f, patterns=[p]) for p in pats])


def rr_setup(cx):
    ghosts(cx)
    cx.st.store[cx.args[0].root] = VIter('map', cx.this.f('m_repairs'), pos=fint('rcit'), end=BoolVal(False))


def rr_req(cx):
    d = dn(cx)
    it = cx.arg(0)
    return [('designates a held repair', And(Not(it.end), d.R[it.pos]))] + links(d)


def same_repairs(d0, d):
    return And(d.I == d0.I, d.rid == d0.rid, d.E == d0.E, d.SS == d0.SS, d.rn == d0.rn, d.ra == d0.ra)


def next_of(it, R, k):
    return And(Implies(Not(it.end), And(R[it.pos], it.pos > k)), allx(Implies(And(R[x_], x_ > k), And(Not(it.end), it.pos <= x_)), [R[x_]]))


def unregistered(d0, d, k, done):
    """Repair k taken out of the registrations of the identifiers in `done`."""
    fx = And(d.M[x_] == And(d0.M[x_], Not(And(done(x_), card(d0.MS[x_]) == 1))),
             Implies(d.M[x_], d.MS[x_] == If(done(x_), Store(d0.MS[x_], k, BoolVal(False)), d0.MS[x_])))
    return both(fx, [d.M[x_], d0.M[x_]])


def rr_post(cx):
    d0, d = do(cx), dn(cx)
    k = cx.oarg(0).pos
    A = d0.I[k]
    return [('the repair is not held any more', And(d.R == Store(d0.R, k, BoolVal(False)), card(d.R) == card(d0.R) - 1)), ('the other repairs are unchanged', same_repairs(d0, d)),
            ('it is unregistered', unregistered(d0, d, k, lambda x: A[x])), ('no unknown source is added', And(card(d.M) <= card(d0.M), allx(Implies(d.M[x_], d0.M[x_]), [d.M[x_]]))),
            ('the result is the next repair', next_of(cx.E.val(cx.st, cx.r), d.R, k))] + named('invariant', links(d))


def rr_pool(L):
    E, s0 = L.E, L.s0
    out = []
    d0 = D(E, s0, T)
    for il, i0 in L.iters:
        if i0.kind != 'seq' or not isinstance(E.read(s0, i0.lv), VSet):
            continue
        ks = [e[1] for e in i0.lv.path if e[0] in ('e', 'k')]
        if not ks:
            continue
        A = E.read(s0, i0.lv).a
        lib.setfacts(E, s0, A, True)
        p = lambda s, il=il: E.read(s, il).pos
        out += [('unregistered so far', lambda s, A=A, p=p, k=ks[0]: unregistered(d0, D(E, s, T), k, lambda x: And(A[x], rank(A, x) < p(s)))),
                ('no unknown source is added', lambda s: card(D(E, s, T).M) <= card(d0.M)),
                ('registrations are finite', lambda s: (lambda d: allx(Implies(d.M[x_], fin(d.MS[x_])), [d.M[x_]]))(D(E, s, T)))]
    return out


# ---------- flush --------------------------------------------------------------------------------------------------
def held_sources(d):
    return [l for l in links(d) if l[0] == 'sources are stored under their identifier'] + shapes(d)[:1] + values(d)[:1]


def fl_req(cx):
    d = dn(cx)
    return held_sources(d) + [('withheld data are known', allx(Implies(d.O[x_], And(d.S[x_], d.op[x_] == x_)), [d.O[x_]])),
                              ('withheld data are not before the first missing one', allx(Implies(d.O[x_], x_ >= d.fm), [d.O[x_]]), ORD),
                              ('identifiers do not wrap', allx(Implies(d.S[x_], x_ < 2 ** 32 - 1), [d.S[x_]]), ORD),
                              ('only data before the first missing one were handed over', allx(Implies(d.D[x_], x_ < d.fm), [d.D[x_]]), ORD)]


def flushed(d0, d):
    return [('the first missing one advances', And(d.fm >= d0.fm, d.fm < 2 ** 32), ORD),
            ('the data up to it were handed over', both(d.D[x_] == Or(d0.D[x_], And(d0.fm <= x_, x_ < d.fm)), [d.D[x_], d0.D[x_]]), ORD),
            ('they had been withheld', allx(Implies(And(d0.fm <= x_, x_ < d.fm), d0.O[x_]), [d0.O[x_]]), ORD),
            ('they had been known', allx(Implies(And(d0.fm <= x_, x_ < d.fm), d0.O[x_]), [d0.S[x_]]), ORD),
            ('they are not withheld any more', both(d.O[x_] == And(d0.O[x_], x_ >= d.fm), [d.O[x_], d0.O[x_]]), ORD),
            ('nothing more is withheld', both(Implies(d.O[x_], d0.O[x_]), [d.O[x_]])),
            ('the pointers are kept', d.op == d0.op)]


def fl_post(cx):
    d0, d = do(cx), dn(cx)
    return flushed(d0, d) + [('the next one is missing', Not(d.O[d.fm]), ORD)]


def fl_mods(cx):
    return [cx.this.f('m_ordered_sources'), cx.this.f('m_first_missing_source_in_order'), Lv('$D')]


def fl_pool(L):
    E, s0 = L.E, L.s0
    d0 = D(E, s0, T)
    out = [(nm, lambda s, n=n: flushed(d0, D(E, s, T))[n][1]) for n, (nm, *_) in enumerate(flushed(d0, d0))]
    for il, i0 in L.iters:
        if i0.kind == 'map':
            it = lambda s, il=il: E.read(s, il)
            out += [('at the first missing one', lambda s, it=it: And(Not(it(s).end), it(s).pos == D(E, s, T).fm)),
                    ('the next withheld one', lambda s, it=it: (lambda i, d: And(Implies(Not(i.end), And(d.O[i.pos], i.pos >= d.fm)), allx(Implies(And(d.O[x_], x_ >= d.fm), And(Not(i.end), i.pos <= x_)), [d.O[x_]])))(it(s), D(E, s, T)))]
    return out


# ---------- drop_outdated --------------------------------------------------------------------------------------------
def ids_ok(d):
    return [('identifiers do not wrap', allx(Implies(d.S[x_], x_ < 2 ** 32 - 1), [d.S[x_]]), ORD),
            ('unknown identifiers do not wrap', allx(Implies(d.M[x_], And(x_ >= 0, x_ < 2 ** 32 - 1)), [d.M[x_]]), ORD)]


def inv2(cx, d, **k):
    return inv(cx, d, **k) + ids_ok(d)


def dr_req(cx):
    d = dn(cx)
    return inv2(cx, d) + [('not older than before', Implies(d.has, cx.arg(0) >= d.last)), ('identifier', And(cx.arg(0) >= 0, cx.arg(0) < 2 ** 32 - 1), ORD)]


def dr_post(cx):
    d0, d = do(cx), dn(cx)
    id_ = cx.oarg(0)
    return named('invariant', inv2(cx, d)) + [
        ('the limit is kept', And(d.has, d.last == id_)),
        ('exactly the repairs of outdated sources are dropped', both_r(d.R[r_] == And(d0.R[r_], mn(d0.I[r_]) >= id_), [d.R[r_], d0.R[r_]])),
        ('the other repairs are unchanged', same_repairs(d0, d)),
        ('exactly the outdated sources are dropped', both(d.S[x_] == And(d0.S[x_], x_ >= id_), [d.S[x_], d0.S[x_]])),
        ('what was handed over stays so', both(Implies(d0.D[x_], d.D[x_]), [d0.D[x_], d.D[x_]]), ORD)]


def both_r(f, pats):
    return And([ForAll([r_], f, patterns=[p]) for p in pats])


def dr_mods(cx):
    t = cx.this
    return fl_mods(cx) + [t.f(f) for f in ('m_last_id', 'm_repairs', 'm_sources', 'm_missing_sources')]


def items(E, s, fs):
    """Candidates from the named items of a function of the state."""
    from ..verify import use
    out = []
    for it in use(E, fs(D(E, s, T))):
        out.append((it[0], lambda st, nm=it[0]: [i[1] for i in fs(D(E, st, T)) if i[0] == nm][0]))
    return out


def dr_pool(L):
    E, s0 = L.E, L.s0
    d0 = D(E, s0, T)
    out = items(E, s0, links)
    idv = s0.store.get('&id')
    idv = d0.last
    for il, i0 in L.iters:
        if i0.kind != 'map':
            continue
        it = lambda s, il=il: E.read(s, il)
        f = i0.lv.path[-1][1]
        if f == 'm_repairs':
            out += [('dropped so far', lambda s, it=it: (lambda d, i: both_r(d.R[r_] == And(d0.R[r_], Not(And(Or(i.end, r_ < i.pos), mn(d0.I[r_]) < idv))), [d.R[r_], d0.R[r_]]))(D(E, s, T), it(s))),
                    ('repairs unchanged', lambda s: same_repairs(d0, D(E, s, T))),
                    ('unknown sources so far', lambda s: (lambda d: allx(Implies(d.M[x_], d0.M[x_]), [d.M[x_]]))(D(E, s, T)))]
        if f == 'm_ordered_sources':
            ends = [v for r, v in s0.store.items() if isinstance(v, VIter) and v.kind == 'map' and v.lv.same(i0.lv) and (r, ()) not in L.mods]
            out += [('handed over so far', lambda s, it=it: (lambda d, i: both(d.O[x_] == And(d0.O[x_], Not(i.end), x_ >= i.pos), [d.O[x_], d0.O[x_]]))(D(E, s, T), it(s))),
                    ('handed over so far (ghost)', lambda s, it=it: (lambda d: both(d.D[x_] == Or(d0.D[x_], And(d0.O[x_], Not(d.O[x_]))), [d.D[x_], d0.D[x_], d.O[x_]]))(D(E, s, T))),
                    ('handed over data are older', lambda s, it=it: (lambda d, i: allx(Implies(d.D[x_], Or(i.end, x_ < i.pos)), [d.D[x_]]))(D(E, s, T), it(s))),
                    ('the others are not', lambda s: (lambda d: allx(Implies(And(d0.O[x_], Not(d.O[x_])), x_ < idv), [d0.O[x_]]))(D(E, s, T))),
                    ('pointers', lambda s: D(E, s, T).op == d0.op),
                    ('withheld data were withheld', lambda s: (lambda d: allx(Implies(d.O[x_], d0.O[x_]), [d.O[x_]]))(D(E, s, T)))]
            for e in ends:
                out += [('before the end', lambda s, it=it, e=e: Or(e.end, And(Not(it(s).end), it(s).pos <= e.pos, D(E, s, T).O[e.pos])))]
    return out


_base = contracts


def contracts():
    return _base() + [
        Contract(DD + '::remove_repair', setup=rr_setup, requires=rr_req, ensures=rr_post, modifies=lambda cx: [cx.this.f('m_repairs'), cx.this.f('m_missing_sources')], pool=rr_pool,
                 result=lambda cx: VIter('map', cx.this.f('m_repairs'), pos=fint('after'), end=fconst('after.end', B))),
        Contract(DD + '::flush_ordered_sources', setup=ghosts, requires=fl_req, ensures=fl_post, modifies=fl_mods, pool=fl_pool),
        Contract(DD + '::drop_outdated', setup=ghosts, requires=dr_req, ensures=dr_post, modifies=dr_mods, pool=dr_pool),
    ]


# ---------- add_source_recursive ---------------------------------------------------------------------------------
def src_ok(s):
    b = s.m_symbol_buffer.m_buffer
    return [('the buffer holds the symbol', And(b.n >= SYM + s.m_symbol_size, b.n < 2 ** 47)), ('identifier', And(s.m_id >= 0, s.m_id < 2 ** 32 - 1), ORD),
            ('the source is what was sent', truth_s(s.m_id, s.m_symbol_size, b.comps['']), VAL)]


def as_req(cx):
    d = dn(cx)
    s = cx.arg(0)
    return inv2(cx, d, less=s.m_id) + src_ok(s) + [('the source is new', Not(d.S[s.m_id])), ('the source is not outdated', Implies(d.has, s.m_id >= d.last))]


def grown(d0, d):
    return [('known sources stay known', both(Implies(d0.S[x_], d.S[x_]), [d0.S[x_], d.S[x_]])),
            ('no repair appears', both_r(Implies(d.R[r_], d0.R[r_]), [d.R[r_], d0.R[r_]])),
            ('no unknown source appears', both(Implies(d.M[x_], d0.M[x_]), [d.M[x_], d0.M[x_]])),
            ('what was handed over stays so', both(Implies(d0.D[x_], d.D[x_]), [d0.D[x_], d.D[x_]]), ORD)]


def as_post(cx):
    d0, d = do(cx), dn(cx)
    s = cx.oarg(0)
    return named('invariant', inv2(cx, d)) + [several(d)] + grown(d0, d) + [
        ('the source is known', d.S[s.m_id]),
        ('unknown sources are known or still unknown', both(Implies(d0.M[x_], Or(d.M[x_], d.S[x_])), [d0.M[x_], d.M[x_], d.S[x_]]), ['C04', 'C15'])]


def as_mods(cx):
    t = cx.this
    return fl_mods(cx) + [t.f(f) for f in ('m_repairs', 'm_sources', 'm_missing_sources', 'm_nb_decoded')]


def as_pool(L):
    E, s0 = L.E, L.s0
    d0 = D(E, s0, T)
    out = []
    for il, i0 in L.iters:
        it = lambda s, il=il: E.read(s, il)
        if i0.kind == 'map' and i0.lv.path[-1][1] == 'm_repairs':
            out += items(E, s0, lambda d: links(d) + recent(d) + shapes(d) + order(d) + values(d) + ids_ok(d) + grown(d0, d) + [('unknown or known', both(Implies(d0.M[x_], Or(d.M[x_], d.S[x_])), [d0.M[x_], d.M[x_], d.S[x_]]), ['C04', 'C15'])])
            out += [('repairs passed have several unknown sources', lambda s, it=it: (lambda d, i: allr(Implies(And(d.R[r_], Or(i.end, r_ < i.pos)), card(d.I[r_]) >= 2), [d.R[r_]]))(D(E, s, T), it(s)))]
        if i0.kind == 'seq' and isinstance(E.read(s0, i0.lv), VSet) and E.T.get(E.read(s0, i0.lv).ty.el).k == 'iter':
            # the repairs registered with a source
            ks = [e[1] for e in i0.lv.path if e[0] in ('e', 'k')]
            if not ks:
                continue
            x = ks[0]
            A = E.read(s0, i0.lv).a
            lib.setfacts(E, s0, A, True)
            done = lambda s, r, A=A, it=it: And(A[r], rank(A, r) < it(s).pos)
            out += [('repairs used up so far', lambda s, done=done: (lambda d: both_r(d.R[r_] == And(d0.R[r_], Not(And(done(s, r_), card(d0.I[r_]) == 1))), [d.R[r_], d0.R[r_]]))(D(E, s, T))),
                    ('the source is taken out so far', lambda s, done=done, x=x: (lambda d: both_r(Implies(d.R[r_], d.I[r_] == If(done(s, r_), Store(d0.I[r_], x, BoolVal(False)), d0.I[r_])), [d.R[r_], d.I[r_]]))(D(E, s, T))),
                    ('identifiers of repairs', lambda s: (lambda d: allr(Implies(d.R[r_], And(d.rid[r_] == r_, fin(d.I[r_]), card(d.I[r_]) >= 1)), [d.R[r_]]))(D(E, s, T)))]
            out += items(E, s0, lambda d: shapes(d) + values(d))
    return out


_base2 = contracts


def contracts():
    return _base2() + [
        Contract(DD + '::add_source_recursive', setup=ghosts, requires=as_req, ensures=as_post, modifies=as_mods, pool=as_pool),
    ]


# ---------- attempt_full_decoding -----------------------------------------------------------------------------------
INV = 'ntc::detail::invert'


def ghosts2(cx):
    ghosts(cx)
    if '$sing' not in cx.st.store:
        cx.st.store['$sing'] = fconst('sing', B)
        cx.E.roottypes['$sing'] = None


def sing(cx, st):
    return st.store['$sing']


def known_or_unknown(d0, d):
    return [('unknown sources are known or still unknown, or nothing encodes them any more', BoolVal(True))]


def fd_req(cx):
    d = dn(cx)
    return inv2(cx, d) + [several(d)]


def fd_post(cx):
    d0, d = do(cx), dn(cx)
    return named('invariant', inv2(cx, d)) + rest(d) + grown(d0, d) + [
        ('a failure is not forgotten', Implies(cx.pre.store['$sing'], cx.st.store['$sing']), ['C04']),
        ('independent repairs recover all their sources', Implies(And(Not(cx.st.store['$sing']), card(d0.M) == card(d0.R)), both(Implies(d0.M[x_], d.S[x_]), [d0.M[x_], d.S[x_]])), ['C04'])]


def fd_mods(cx):
    t = cx.this
    return as_mods(cx) + [t.f(f) for f in ('m_coefficients', 'm_inv', 'm_index', 'm_nb_failed_full_decodings')] + [Lv('$sing')]


def fd_lemmas(cx):
    d = dn(cx)
    return And(subset_lemma(d.I[mn(d.R)], d.M))


def iv_req(cx):
    m, i = cx.arg(1), cx.arg(2)
    return [('dimensions', And(m.m_dimension == i.m_dimension, m.m_dimension >= 1, m.m_dimension < 2 ** 24, m.m_vec.n == m.m_dimension * m.m_dimension, i.m_vec.n == i.m_dimension * i.m_dimension), ['C08', 'C10', 'C01'])]


def iv_post(cx):
    m, i = cx.arg(1), cx.arg(2)
    m0 = cx.oarg(1)
    return [('dimensions', And(m.m_dimension == m0.m_dimension, i.m_dimension == m0.m_dimension, m.m_vec.n == m0.m_vec.n, i.m_vec.n == cx.oarg(2).m_vec.n)),
            ('the index is one of the matrix', Implies(cx.r.has, And(cx.r.v >= 0, cx.r.v < m0.m_dimension)))]


def iv_effect(cx):
    if '$sing' in cx.st.store:
        cx.E.write(cx.st, Lv('$sing'), Or(cx.st.store['$sing'], cx.r.has))


def fd_pool(L):
    E, s0 = L.E, L.s0
    d0 = D(E, s0, T)
    out = []
    if ('this', (('f', 'm_repairs'),)) in L.mods or any(r == 'this' and p[:1] == (('f', 'm_repairs'),) for r, p in L.mods):
        # repairs are removed until there are as many as unknown sources
        out += items(E, s0, lambda d: links(d) + recent(d) + shapes(d) + values(d) + ids_ok(d) + grown(d0, d) + [several(d)])
        out += [('at least as many repairs as unknown sources', lambda s: card(D(E, s, T).R) >= card(D(E, s, T).M)),
                ('nothing is removed if there are as many', lambda s: (lambda d: Or(card(d0.R) > card(d0.M), And(d.R == d0.R, d.M == d0.M)))(D(E, s, T)))]
        return out
    for il, i0 in L.iters:
        it = lambda s, il=il: E.read(s, il)
        if i0.kind != 'map':
            continue
        A = E.read(s0, i0.lv).dom
        f = i0.lv.path[-1][1]
        lib.setfacts(E, s0, A, True)
        npos = lambda s, it=it, A=A: If(it(s).end, card(A), rank(A, it(s).pos))
        for cl, c0 in L.ints:
            out.append(('number of elements passed (%s)' % repr(cl).split('!')[0], lambda s, cl=cl, npos=npos: E.read(s, cl) == npos(s)))
        if any(p and p[0] == ('f', 'm_index') for r, p in L.mods):
            ix = lambda s: E.read(s, T.f('m_index'))
            out += [('one entry per repair passed', lambda s, npos=npos: ix(s).n == npos(s)),
                    ('entries designate the repairs', lambda s, npos=npos, A=A: ForAll([x_], Implies(And(0 <= x_, x_ < npos(s)), ix(s).comps[''][x_] == at(A, x_)), patterns=[ix(s).comps[''][x_]]))]
        if any(p and p[0] == ('f', 'm_sources') for r, p in L.mods):
            passed = lambda s, x, it=it: Or(it(s).end, x < it(s).pos)
            out += [('recovered so far', lambda s, passed=passed: (lambda d: both(d.S[x_] == Or(d0.S[x_], And(d0.M[x_], passed(s, x_))), [d.S[x_], d0.S[x_], d0.M[x_]]))(D(E, s, T)))]
            out += items(E, s0, lambda d: [l for l in links(d) if l[0] == 'sources are stored under their identifier'] + recent(d) + shapes(d)[:1] + order(d) + values(d)[:1] + ids_ok(d) + grown(d0, d))
    return out


# ---------- operator()(decoder_source) ---------------------------------------------------------------------------------
def os_req(cx):
    d = dn(cx)
    return inv2(cx, d) + rest(d) + src_ok(cx.arg(0))


def os_post(cx):
    d0, d = do(cx), dn(cx)
    s = cx.oarg(0)
    return named('invariant', inv2(cx, d)) + rest(d) + grown(d0, d) + [
        ('the source is handed over, or withheld because an older one is missing', Implies(And(Not(d0.S[s.m_id]), Implies(d0.has, s.m_id >= d0.last)),
            And(d.S[s.m_id], Or(d.D[s.m_id], And(d.io, d.O[s.m_id], s.m_id > d.fm, Not(d.S[d.fm]))))), ['C04'])]


# ---------- operator()(decoder_repair) ---------------------------------------------------------------------------------
def or_req(cx):
    d = dn(cx)
    r = cx.arg(0)
    A = r.m_sources_ids.a
    b = r.m_symbol_buffer.m_buffer
    return inv2(cx, d) + rest(d) + [('the buffer holds the symbol', And(b.n >= SYM + r.m_symbol_size, b.n < 2 ** 47, r.m_symbol_size >= 0, r.m_symbol_size < 65536)),
        ('identifiers', allx(Implies(A[x_], And(x_ >= 0, x_ < 2 ** 32 - 1)), [A[x_]]), ORD),
        ('the repair is a combination of what was sent', truth_r(r.m_id, A, r.m_encoded_size, r.m_symbol_size, b.comps['']), VAL),
        ('the repair is as long as what it combines', allx(Implies(A[x_], Sz(x_) <= r.m_symbol_size), [A[x_]]), VAL)]


def or_post(cx):
    d0, d = do(cx), dn(cx)
    r = cx.oarg(0)
    A = r.m_sources_ids.a
    acc = And(card(A) >= 1, Implies(d0.has, mn(A) >= d0.last), Not(d0.R[r.m_id]))
    return named('invariant', inv2(cx, d)) + rest(d) + [
        ('what was handed over stays so', both(Implies(d0.D[x_], d.D[x_]), [d0.D[x_], d.D[x_]]), ORD),
        ('the limit moves to the oldest source of an accepted repair', Implies(acc, And(d.has, d.last == mn(A))), ['C15']),
        ('otherwise it stays', Implies(Not(acc), And(d.has == d0.has, Implies(d.has, d.last == d0.last))), ['C15']),
        ('the limit never decreases', Implies(d0.has, And(d.has, d.last >= d0.last)), ['C15'])]


def or_mods(cx):
    return fd_mods(cx) + [cx.this.f(f) for f in ('m_last_id', 'm_nb_useless_repairs')]


def or_pool(L):
    E, s0 = L.E, L.s0
    d0 = D(E, s0, T)
    out = []
    for il, i0 in L.iters:
        if i0.kind != 'seq' or not i0.rev:
            continue
        ks = [e[1] for e in i0.lv.path if e[0] in ('e', 'k')]
        if not ks:
            continue
        k = ks[0]
        A0 = E.read(s0, i0.lv).a
        lib.setfacts(E, s0, A0, True)
        p = lambda s, il=il: E.read(s, il).pos
        d_ = lambda s: D(E, s, T)
        i_ = Int('i')
        new = lambda s, x: And(A0[x], rank(A0, x) >= p(s), Not(d0.S[x]))
        out += [('what is left of the repair', lambda s: (lambda A: both(A[x_] == And(A0[x_], Or(rank(A0, x_) < p(s), Not(d0.S[x_]))), [A[x_], rank(A0, x_)]))(d_(s).I[k])),
                ('identifiers to come', lambda s: (lambda A: And(p(s) <= card(A), fin(A), ForAll([i_], Implies(And(0 <= i_, i_ < p(s)), at(A, i_) == at(A0, i_)), patterns=[at(A, i_)])))(d_(s).I[k])),
                ('the repairs are those', lambda s: And(d_(s).R == d0.R, d_(s).rid == d0.rid, d_(s).SS == d0.SS, d_(s).rn == d0.rn)),
                ('the other repairs are unchanged', lambda s: (lambda d: allr(Implies(r_ != k, And(d.I[r_] == d0.I[r_], d.E[r_] == d0.E[r_], d.ra[r_] == d0.ra[r_])), [d.I[r_], ]))(d_(s))),
                ('unknown sources so far', lambda s: (lambda d: both(d.M[x_] == Or(d0.M[x_], new(s, x_)), [d.M[x_], d0.M[x_], rank(A0, x_)]))(d_(s))),
                ('registrations so far', lambda s: (lambda d: both(Implies(d.M[x_], And(fin(d.MS[x_]), d.MS[x_] == If(new(s, x_), If(d0.M[x_], Store(d0.MS[x_], k, BoolVal(True)), Store(EMPTY, k, BoolVal(True))), d0.MS[x_]))), [d.M[x_], d.MS[x_]]))(d_(s)))]
        if E.prop in (None, 'C01'):
            out += [('the repair is a combination of what is left', lambda s: (lambda d: truth_r(k, d.I[k], d.E[k], d.SS[k], d.ra[k]))(d_(s)))]
    return out


_base3 = contracts


def contracts():
    return _base3() + [
        Contract(INV, setup=ghosts2, requires=iv_req, ensures=iv_post, modifies=lambda cx: [cx.args[1].f('m_vec'), cx.args[2].f('m_vec')], effect=iv_effect, trusted=True),
        Contract(DD + '::attempt_full_decoding', setup=ghosts2, requires=fd_req, ensures=fd_post, modifies=fd_mods, pool=fd_pool, lemmas=fd_lemmas),
        Contract(DD + '::operator()(%s)' % SRC, setup=ghosts2, requires=os_req, ensures=os_post, modifies=fd_mods),
        Contract(DD + '::operator()(%s)' % REP, setup=ghosts2, requires=or_req, ensures=or_post, modifies=or_mods, pool=or_pool),
    ]
