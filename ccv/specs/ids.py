"""Run-length coded lists of identifiers (C06, C07, C08)."""
from z3 import *
from ..theory import *
from ..values import *
from ..ctypes_ import Ty, Break
from ..verify import Contract
from .. import lib
from . import packet as pk
from .wire import PZ, H, HC, OVF, be, bytes_ok, prefix_kept, init_wire, written, wmods, ghosts, common, pbytes, ptype

RT = ['C06', 'C07']
FS = 'boost::container::flat_set<unsigned int, std::less<unsigned int>, void>'


def groups(F, K, val, j=None):
    """For every group k and every position j in it: val(k, j)."""
    k, j = Int('k'), Int('j')
    return lambda pat: ForAll([k, j], Implies(And(0 <= k, k < K, cum(F, k) <= j, j < cum(F, k) + F[k]), val(k, j)), patterns=[pat(k, j)])


def ids_written(a, n0, A, F, V, K, D=None):
    """The bytes at n0 of a are the coded form of A, with K runs of length F and difference V."""
    k, j = Int('k'), Int('j')
    return [('number of runs', And(K >= 0, K <= card(A), Implies(card(A) == 0, K == 0), Implies(card(A) > 0, K < card(A)))),
            ('run lengths', ForAll([k], Implies(And(0 <= k, k < K), And(F[k] >= 1, F[k] <= 255, V[k] >= 0, V[k] < 65536)), patterns=[F[k]])),
            ('an empty list is a zero', Implies(card(A) == 0, And(be(a, n0, 2) == 0, bytes_ok(a, n0, 2)))),
            ('number of elements and first identifier', Implies(card(A) > 0, And(be(a, n0, 2) == (K + 1) % 65536, bytes_ok(a, n0, 6), be(a, n0 + 2, 4) == mn(A)))),
            ('runs', ForAll([k], Implies(And(0 <= k, k < K), And(a[n0 + 6 + 3 * k] == F[k], be(a, n0 + 7 + 3 * k, 2) == V[k], bytes_ok(a, n0 + 7 + 3 * k, 2))), patterns=[F[k]])),
            ('the runs cover the list', Implies(card(A) > 0, cum(F, K) == card(A))),
            ('the runs hold the differences', ForAll([k, j], Implies(And(0 <= k, k < K, cum(F, k) <= j, j < cum(F, k) + F[k], trg(D[j]) if D is not None else BoolVal(True)), V[k] == (at(A, j) - at(A, j - 1)) % 65536),
                                                     patterns=[MultiPattern(F[k], at(A, j))])),
            ('positions', ForAll([k], Implies(And(0 <= k, k < K), And(cum(F, k) >= 1, cum(F, k + 1) == cum(F, k) + F[k], cum(F, k + 1) <= card(A))), patterns=[F[k]]))]


def ids_len(A, K):
    return If(card(A) == 0, IntVal(2), 6 + 3 * K)


def write_ids_post(cx):
    a0, n0, a1, n1 = written(cx)
    A = cx.oarg(0).a
    if cx.mode == 'verify':
        v = cx.new.m_rle_buffer
        F, V, K = v.comps['first.'], v.comps['second.'], v.n
        lib.setfacts(cx.E, cx.st, A, True)
    else:
        F, V, K = fconst('runs', BytesS), fconst('diffs', BytesS), fint('nruns')
        cx.st.store['$rle'] = (F, V, K)
        lib.setfacts(cx.E, cx.st, A, True)
    D = cx.new.m_difference_buffer.comps[''] if cx.mode == 'verify' else None
    return [('earlier bytes are kept', prefix_kept(a1, a0, n0)), ('no packet is ended', cx.st.store['$ends'] == cx.pre.store['$ends']),
            ('length', n1 == n0 + ids_len(A, K))] + ids_written(a1, n0, A, F, V, K, D)


def self_bufs(cx):
    return [cx.this.f('m_difference_buffer'), cx.this.f('m_rle_buffer')]


def codec_pool(L):
    """Invariants of the loops of the codec, whichever of them this is."""
    E, s0 = L.E, L.s0
    out = []
    roots = [(Lv(r), v) for r, v in s0.store.items() if isinstance(v, VStruct) and 'm_difference_buffer' in v.fields and 'm_rle_buffer' in v.fields]
    for r, v in list(s0.store.items()):
        if isinstance(v, VStruct) and 'm_packetizer' in v.fields and isinstance(v.fields['m_packetizer'], VStruct):
            roots.append((Lv(r).f('m_packetizer'), v.fields['m_packetizer']))
    for lv, v in roots:
        D, Rl = lv.f('m_difference_buffer'), lv.f('m_rle_buffer')
        mods = {(r, p) for r, p in L.mods}

        def touched(x):
            return any(r == x.root and (p[:len(x.path)] == x.path or x.path[:len(p)] == p) for r, p in mods)
        its = [l for l, i in L.iters if i.kind == 'seq' and i.lv.same(D)]
        k, j = Int('k'), Int('j')
        rl = lambda s, Rl=Rl: E.read(s, Rl)
        dd = lambda s, D=D: E.read(s, D)
        # writer: position in the differences, runs so far
        for il in its:
            pos = lambda s, il=il: E.read(s, il).pos
            p0 = pos(s0)
            d0 = dd(s0).comps['']
            out += [('differences equal so far', lambda s, pos=pos: ForAll([j], Implies(And(p0 <= j, j <= pos(s)), d0[j] == d0[p0]), patterns=[d0[j]])),
                    ('within', lambda s, pos=pos: And(pos(s) >= p0, pos(s) < dd(s).n))]
            if touched(Rl):
                out += [('runs cover what was read', lambda s, pos=pos: cum(rl(s).comps['first.'], rl(s).n) == pos(s)),
                        ('no more runs than differences', lambda s, pos=pos: And(rl(s).n >= 0, rl(s).n < pos(s))),
                        ('runs hold differences', lambda s, pos=pos: ForAll([k, j], Implies(And(0 <= k, k < rl(s).n, cum(rl(s).comps['first.'], k) <= j, j < cum(rl(s).comps['first.'], k) + rl(s).comps['first.'][k]),
                                                                                  rl(s).comps['second.'][k] == dd(s).comps[''][j] % 65536), patterns=[MultiPattern(rl(s).comps['first.'][k], dd(s).comps[''][j])])),
                        ('run lengths', lambda s, pos=pos: ForAll([k], Implies(And(0 <= k, k < rl(s).n), And(rl(s).comps['first.'][k] >= 1, rl(s).comps['first.'][k] <= 255,
                                                                                  rl(s).comps['second.'][k] >= 0, rl(s).comps['second.'][k] < 65536)), patterns=[rl(s).comps['first.'][k]])),
                        ('run positions', lambda s, pos=pos: ForAll([k], Implies(And(0 <= k, k < rl(s).n), And(cum(rl(s).comps['first.'], k) >= 1, cum(rl(s).comps['first.'], k + 1) == cum(rl(s).comps['first.'], k) + rl(s).comps['first.'][k],
                                                                                  cum(rl(s).comps['first.'], k + 1) <= pos(s))), patterns=[rl(s).comps['first.'][k]]))]
        # writer: emission of the runs
        if '$wire' in s0.store and touched(Lv('$wire')):
            w0 = s0.store['$wire']
            cand = [(lambda s, il=il: E.read(s, il).pos) for il, i in L.iters if i.kind == 'seq' and i.lv.same(Rl)] + \
                   [(lambda s, il=il: E.read(s, il)) for il, i in L.ints]
            for pos in cand:
                wr = lambda s: s.store['$wire'].comps['']
                out += [('bytes written', lambda s, pos=pos: And(s.store['$wire'].n == w0.n + 3 * pos(s), pos(s) >= 0, pos(s) <= rl(s).n)),
                        ('runs written', lambda s, pos=pos: ForAll([k], Implies(And(0 <= k, k < pos(s)), And(wr(s)[w0.n + 3 * k] == rl(s).comps['first.'][k], be(wr(s), w0.n + 3 * k + 1, 2) == rl(s).comps['second.'][k],
                                                                     bytes_ok(wr(s), w0.n + 3 * k + 1, 2))), patterns=[rl(s).comps['first.'][k]]))]
            out += [('earlier bytes kept', lambda s: prefix_kept(s.store['$wire'].comps[''], w0.comps[''], w0.n)),
                    ('no end', lambda s: s.store['$ends'] == s0.store['$ends'])]
        # reader
        g = s0.store.get('$rd')
        if g is not None and touched(D):
            F, V, o = g.F, g.V, g.o
            for il, i0 in L.ints:
                cnt = lambda s, il=il: E.read(s, il)
                out += [('as many differences as the runs read', lambda s, cnt=cnt: And(dd(s).n == cum(F, cnt(s)), cum_def(F, cnt(s)), g.at(cnt(s)), cnt(s) >= 0)),
                        ('differences read', lambda s, cnt=cnt: ForAll([k, j], Implies(And(0 <= k, k < cnt(s), cum(F, k) <= j, j < cum(F, k) + F[k]), dd(s).comps[''][j] == V[k]), patterns=[MultiPattern(F[k], dd(s).comps[''][j])])),
                        ('run positions', lambda s, cnt=cnt: ForAll([k], Implies(And(0 <= k, k < cnt(s)), And(cum(F, k) >= 1, cum(F, k + 1) == cum(F, k) + F[k], cum(F, k + 1) <= dd(s).n)), patterns=[F[k]])),
                        ('run under way', lambda s, cnt=cnt, i0=i0: dd(s).n == dd(s0).n + cnt(s) - i0)]
                for nm, x in locals_(E, s0):
                    out.append(('counter <= ' + nm, lambda s, cnt=cnt, x=x: cnt(s) <= x, 'guess'))
            for nm, x in locals_(E, s0):
                out.append(('run of ' + nm, lambda s, x=x: ForAll([j], Implies(And(dd(s0).n <= j, j < dd(s).n), dd(s).comps[''][j] == x), patterns=[dd(s).comps[''][j]]), 'guess'))
            out += [('first identifier kept', lambda s: And(dd(s).n >= 1, dd(s).comps[''][0] == dd(s0).comps[''][0])),
                    ('earlier differences kept', lambda s: ForAll([j], Implies(And(0 <= j, j < dd(s0).n), dd(s).comps[''][j] == dd(s0).comps[''][j]), patterns=[dd(s).comps[''][j]]))]
    for pl, p0 in L.ptrs:
        for il, i0 in L.ints:
            out.append(('three bytes per run', lambda s, pl=pl, il=il, p0=p0, i0=i0: E.read(s, pl).off == p0.off + 3 * (E.read(s, il) - i0), 'guess'))
            out.append(('length left', lambda s, pl=pl, il=il, p0=p0, i0=i0: E.read(s, pl).off + E.read(s, il) == p0.off + i0, 'guess'))
            out.append(('length left >= 0', lambda s, il=il: E.read(s, il) >= 0, 'guess'))
    return out


def locals_(E, s0):
    out = []
    for lv in s0.env.values():
        if isinstance(lv, Lv) and lv.root in s0.store:
            v = s0.store[lv.root] if not lv.path else None
            if isinstance(v, ExprRef) and is_int(v) and not is_int_value(v) and not any(v.eq(o) for _, o in out):
                out.append((lv.root.split('!')[0], v))
    return out


# ---------- reading ---------------------------------------------------------------------------------------
def read_setup(cx):
    """data points into the bytes of a packet, max_len bytes are left."""
    E, st = cx.E, cx.st
    n, o = fint('bytes.n'), fint('data.off')
    st.store['$bytes'] = VVec(Ty('vec', el='char', name='memory'), n, {'': fconst('bytes', BytesS)})
    st.store[cx.args[0].root] = VPtr(Lv('$bytes'), o)
    ln = E.read(st, cx.args[1])
    st.assume(0 <= o, o + ln == n, n < 2 ** 40)


class Coded:
    """The runs coded at o in a: F (lengths) and V (differences), by definition."""
    def __init__(self, a, o):
        self.a, self.o = a, o
        self.F, self.V = fconst('F', BytesS), fconst('V', BytesS)

    def at(self, k):
        a, o = self.a, self.o
        return And(self.F[k] == a[o + 6 + 3 * k], self.V[k] == be(a, o + 7 + 3 * k, 2), self.F[k] >= 0, self.F[k] < 256, self.V[k] >= 0, self.V[k] < 65536)

    def facts(self):
        k, i = Ints('k i')
        return [ForAll([k], self.at(k), patterns=[self.F[k]]), ForAll([k], self.at(k), patterns=[self.V[k]]),
                # lemma cum-monotone (F is nowhere negative)
                ForAll([k, i], Implies(And(0 <= k, k <= i), cum(self.F, k) <= cum(self.F, i)), patterns=[MultiPattern(cum(self.F, k), cum(self.F, i))])]


def all_bytes(a):
    i = Int('i')
    return ForAll([i], And(a[i] >= 0, a[i] < 256), patterns=[a[i]])


def read_ids_req(cx):
    p = cx.E.read(cx.st, cx.args[0])
    if not isinstance(p, VPtr):
        raise Break('data is not a pointer')
    v = cx.E.read(cx.st, p.lv)
    return [('within the packet', And(p.off >= 0, p.off + cx.arg(1) <= v.n))]


def read_lemmas(cx):
    p = cx.E.read(cx.st, cx.args[0])
    a = cx.E.read(cx.st, p.lv).comps['']
    g = Coded(a, p.off)
    cx.st.store['$rd'] = g
    return [all_bytes(a)] + g.facts()


def ids_read(a, o, F, V, D, A, verify=False):
    """A is the list coded at o of a, D its differences."""
    k, j, x = Ints('k j x')
    ne = be(a, o, 2)
    n = cum(F, ne - 1)
    wi = Function('idx', SetS, I, I)
    out = [('empty', Implies(ne == 0, card(A) == 0), RT),
           ('first difference', Implies(ne > 0, And(D[0] == be(a, o + 2, 4), n >= 1)), RT),
           ('differences', Implies(ne > 0, ForAll([k, j], Implies(And(0 <= k, k < ne - 1, cum(F, k) <= j, j < cum(F, k) + F[k]), D[j] == V[k]), patterns=[MultiPattern(F[k], D[j])])), RT),
           ('all sums are in the list', Implies(ne > 0, ForAll([j], Implies(And(0 <= j, j < n), A[psum(D, j)]), patterns=[psum(D, j)])), RT)]
    if verify:
        y = fint('some')
        out.append(('only sums are in the list', Implies(And(ne > 0, A[y]), Exists([j], And(0 <= j, j < n, psum(D, j) == y))), RT))
    else:
        out.append(('only sums are in the list', Implies(ne > 0, ForAll([x], Implies(A[x], And(0 <= wi(A, x), wi(A, x) < n, psum(D, wi(A, x)) == x)), patterns=[A[x]])), RT))
    return out


def ids_read_len(a, o):
    ne = be(a, o, 2)
    return If(ne == 0, IntVal(2), 6 + 3 * (ne - 1))


def coded(cx):
    """The ghosts of the list read: (F, V, D)."""
    E = cx.E
    g = cx.st.store['$rd']
    if cx.mode == 'verify':
        D = cx.st.store.get('$D')
        if D is None:
            D = cx.new.m_difference_buffer.comps['']
    else:
        D = fconst('D', BytesS)
        cx.st.store['$D'] = D
    return g.F, g.V, D


def read_ids_post(cx):
    E = cx.E
    p0, p1 = E.read(cx.pre, cx.args[0]), E.read(cx.st, cx.args[0])
    m0, m1 = cx.oarg(1), cx.arg(1)
    F, V, D = coded(cx)
    a, o = cx.st.store['$rd'].a, p0.off
    A = cx.res.a
    if cx.mode != 'verify':
        lib.setfacts(E, cx.st, A)
    return [('bytes read', And(p1.off == o + ids_read_len(a, o), p1.off - o == m0 - m1, m1 >= 0, m1 <= m0))] + ids_read(a, o, F, V, D, A, cx.mode == 'verify')


def read_ids_throw(cx):
    p0 = cx.E.read(cx.pre, cx.args[0])
    g = cx.st.store['$rd']
    ne = be(g.a, p0.off, 2)
    return [('only if too short', Or(cx.oarg(1) < 2, And(ne > 0, cx.oarg(1) < 6 + 3 * (ne - 1))), ['C06', 'C07'])]


# ---------- acks and repairs ------------------------------------------------------------------------------
def rle(cx):
    if cx.mode == 'verify':
        if '$rle' in cx.st.store:
            return cx.st.store['$rle']
        v = cx.new.m_rle_buffer
        return v.comps['first.'], v.comps['second.'], v.n
    cx.st.store['$rle'] = (fconst('runs', BytesS), fconst('diffs', BytesS), fint('nruns'))
    return cx.st.store['$rle']


def ack_format(a, o, nb, A, F, V, K):
    return [('type byte', a[o] == 0), ('counter', And(be(a, o + 1, 2) == nb, bytes_ok(a, o + 1, 2)))] + ids_written(a, o + 3, A, F, V, K)


def ack_len(A, K):
    return 3 + ids_len(A, K)


def write_ack_post(cx):
    a0, n0, a1, n1 = written(cx)
    k = cx.oarg(0)
    A = k.m_source_ids.a
    F, V, K = rle(cx)
    lib.setfacts(cx.E, cx.st, A, True)
    return common(cx, a0, n0, a1) + [('length', n1 == n0 + ack_len(A, K))] + ack_format(a1, n0, k.m_nb_packets, A, F, V, K)


def repair_format(a, o, id_, n, sym, A, es, F, V, K):
    i = Int('i')
    e = o + 7 + n
    z = e + ids_len(A, K)
    return [('type byte', a[o] == 1), ('identifier', And(be(a, o + 1, 4) == id_, bytes_ok(a, o + 1, 4))),
            ('size', And(be(a, o + 5, 2) == n, bytes_ok(a, o + 5, 2))),
            ('symbol', ForAll([i], Implies(And(i >= o + 7, i < o + 7 + n), a[i] == sym[i - o - 7]), patterns=[a[i]]))] + \
        ids_written(a, e, A, F, V, K) + [('encoded size', And(be(a, z, 2) == es, bytes_ok(a, z, 2)))]


def repair_len(n, A, K):
    return 7 + n + ids_len(A, K) + 2


def write_repair_post(cx):
    a0, n0, a1, n1 = written(cx)
    r = cx.oarg(0)
    A = r.m_sources_ids.a
    F, V, K = rle(cx)
    lib.setfacts(cx.E, cx.st, A, True)
    n = r.m_buffer.n
    return common(cx, a0, n0, a1) + [('length', n1 == n0 + repair_len(n, A, K))] + \
        repair_format(a1, n0, r.m_id, n, r.m_buffer.comps[''], A, r.m_encoded_size, F, V, K)


def packet_coded(off):
    def f(cx):
        b = cx.arg(0).m_buffer
        a = b.comps['']
        g = Coded(a, off(a))
        cx.st.store['$rd'] = g
        return [all_bytes(a)] + g.facts()
    return f


ACK_OFF = lambda a: IntVal(pk.OFF + 3)
REP_OFF = lambda a: pk.OFF + 7 + be(a, pk.OFF + 5, 2)


def ack_read(a, n, nb, A, second, F, V, D, verify=False):
    o = pk.OFF
    return [('long enough', n >= 3 + ids_read_len(a, o + 3)), ('counter', nb == be(a, o + 1, 2)), ('read bytes', second == 3 + ids_read_len(a, o + 3))] + ids_read(a, ACK_OFF(a), F, V, D, A, verify)


def read_ack_post(cx):
    a, n = pbytes(cx)
    r = cx.res
    F, V, D = coded(cx)
    if cx.mode != 'verify':
        lib.setfacts(cx.E, cx.st, r.first.m_source_ids.a)
    return ack_read(a, n, r.first.m_nb_packets, r.first.m_source_ids.a, r.second, F, V, D, cx.mode == 'verify')


def ack_short(a, n):
    o = pk.OFF
    return Or(n < 5, n < 3 + ids_read_len(a, o + 3))


def repair_read(a, n, id_, sz, es, A, second, F, V, D, verify=False):
    o = pk.OFF
    e = REP_OFF(a)
    z = e + ids_read_len(a, e)
    return [('long enough', n >= z + 2 - o), ('identifier', id_ == be(a, o + 1, 4)), ('symbol size', sz == be(a, o + 5, 2)),
            ('encoded size', es == be(a, z, 2)), ('read bytes', second == z + 2 - o)] + ids_read(a, e, F, V, D, A, verify)


def read_repair_post(cx):
    a, n = pbytes(cx)
    r = cx.res
    F, V, D = coded(cx)
    p = cx.oarg(0).m_buffer
    f = r.first
    if cx.mode != 'verify':
        lib.setfacts(cx.E, cx.st, f.m_sources_ids.a)
    return [('the symbol is the one in the packet', And(f.m_symbol_buffer.m_buffer.comps[''] == p.comps[''], f.m_symbol_buffer.m_buffer.n == p.n))] + \
        repair_read(a, n, f.m_id, f.m_symbol_size, f.m_encoded_size, f.m_sources_ids.a, r.second, F, V, D, cx.mode == 'verify')


def repair_short(a, n):
    e = REP_OFF(a)
    return Or(n < 7, n < 7 + be(a, pk.OFF + 5, 2) + 2, n < e - pk.OFF + ids_read_len(a, e) + 2)


def only_if(f):
    return lambda cx: [('only if too short', f(*pbytes(cx)), RT)]


def contracts():
    bufs = lambda cx: wmods(cx) + self_bufs(cx)
    return [
        Contract(PZ + '::write(%s)' % FS, cls=HC, setup=ghosts, ensures=write_ids_post, modifies=bufs, pool=codec_pool),
        Contract(PZ + '::read_ids', cls=HC, setup=read_setup, requires=read_ids_req, lemmas=read_lemmas, ensures=read_ids_post, throws={OVF: read_ids_throw},
                 modifies=lambda cx: cx.args + self_bufs(cx), pool=codec_pool),
        Contract(PZ + '::write_ack', cls=HC, setup=ghosts, ensures=write_ack_post, modifies=bufs, pool=codec_pool),
        Contract(PZ + '::read_ack', cls=HC, requires=ptype(0), lemmas=packet_coded(ACK_OFF), ensures=read_ack_post, throws={OVF: only_if(ack_short)}, modifies=self_bufs, pool=codec_pool),
        Contract(PZ + '::write_repair', cls=HC, setup=ghosts, requires=lambda cx: [('size fits 16 bits', cx.arg(0).m_buffer.n < 65536)],
                 ensures=write_repair_post, modifies=bufs, pool=codec_pool),
        Contract(PZ + '::read_repair', cls=HC, requires=ptype(1), lemmas=packet_coded(REP_OFF), ensures=read_repair_post, throws={OVF: only_if(repair_short)}, modifies=self_bufs, pool=codec_pool),
    ]


from .wire import prepare


# ---------- lemmas ------------------------------------------------------------------------------------------
def lemma_cum(E):
    from ..engine import St
    st = St()
    F, n, v, k, i = fconst('F', BytesS), fint('n'), fint('v'), fint('k'), fint('i')
    G = Store(F, n, v)
    cum = Function('cum.def', BytesS, I, I)      # not the symbol the lemmas are assumed for

    def cum_def(F, k):
        return And(cum(F, 0) == 1, Implies(k >= 0, cum(F, k + 1) == cum(F, k) + F[k]))

    def ob(hyps, g, nm):
        s = St()
        s.assume(*hyps)
        E.oblige(s, g, nm, 'induction', kind='lemma')
    base = [cum(F, 0) == 1, cum(G, 0) == 1]
    ob(base, cum(G, 0) == cum(F, 0), 'cum-store: base')
    ob([0 <= k, k + 1 <= n, cum(G, k) == cum(F, k), cum_def(F, k), cum_def(G, k)], cum(G, k + 1) == cum(F, k + 1), 'cum-store: step')
    ob([k <= k], cum(F, k) <= cum(F, k), 'cum-monotone: base')
    ob([0 <= k, k <= i, cum(F, k) <= cum(F, i), cum_def(F, i), F[i] >= 0], cum(F, k) <= cum(F, i + 1), 'cum-monotone: step')



def fml(items):
    return [it[1] for it in items]


class Trip:
    """The bytes written at n0 of w lie at o of p; what the reader makes of them. `len_` bytes are copied from `base` on."""
    def __init__(self, E, nm, o=None, n0=None, w=None, p=None):
        from ..engine import St
        self.E, self.nm, self.St = E, nm, St
        E.raw = True
        self.w, self.p = w if w is not None else fconst('w', BytesS), p if p is not None else fconst('p', BytesS)
        self.o, self.n0 = o if o is not None else fint('o'), n0 if n0 is not None else fint('n0')
        self.A, self.F, self.V, self.K = fconst('A', SetS), fconst('F', BytesS), fconst('V', BytesS), fint('K')
        self.F2, self.V2, self.D, self.A2 = fconst('F2', BytesS), fconst('V2', BytesS), fconst('D', BytesS), fconst('A2', SetS)
        x, i = Ints('x i')
        A = self.A
        self.dom = [ForAll([x], Implies(A[x], And(x >= 0, x < 2 ** 32)), patterns=[A[x]]), self.K + 1 < 65536,
                    ForAll([i], Implies(And(1 <= i, i < card(A)), at(A, i) - at(A, i - 1) < 65536), patterns=[at(A, i)])]
        self.set = set_facts(A, True)

    def ob(self, hyps, g, nm):
        s = self.St()
        s.assume(*hyps)
        self.E.oblige(s, g, '%s: %s' % (self.nm, nm), 'lemma', kind='lemma')
        return g

    def ids(self, same):
        """Proves that the list read is the list written; returns (list equal, length equal)."""
        k, j, x = Ints('k j x')
        w, p, o, n0, A, F, V, K, F2, V2, D, A2 = self.w, self.p, self.o, self.n0, self.A, self.F, self.V, self.K, self.F2, self.V2, self.D, self.A2
        wr = fml(ids_written(w, n0, A, F, V, K))
        g = Coded(p, o)
        g.F, g.V = F2, V2
        rd = fml(ids_read(p, o, F2, V2, D, A2))
        ne = be(p, o, 2)
        ob = self.ob
        hd = ob(wr + same + self.dom + self.set, And(Implies(card(A) == 0, ne == 0), Implies(card(A) > 0, And(ne == K + 1, be(p, o + 2, 4) == mn(A)))), 'header')
        ln = ob([hd] + wr[:1], ids_read_len(p, o) == ids_len(A, K), 'length')
        kk = fint('k')
        ob(wr + same + self.dom + [g.at(kk), 0 <= kk, kk < K, card(A) > 0, trg(F[kk])], And(F2[kk] == F[kk], V2[kk] == V[kk]), 'each run')
        runs = Implies(card(A) > 0, ForAll([k], Implies(And(0 <= k, k < K), And(F2[k] == F[k], V2[k] == V[k])), patterns=[F2[k]]))
        runs1 = Implies(card(A) > 0, ForAll([k], Implies(And(0 <= k, k < K), And(F2[k] == F[k], V2[k] == V[k])), patterns=[F[k]]))
        ob([cum(F, 0) == 1, cum(F2, 0) == 1], cum(F2, 0) == cum(F, 0), 'positions: base')
        ob([0 <= kk, kk < K, card(A) > 0, runs, trg(F2[kk]), cum(F2, kk) == cum(F, kk), cum_def(F, kk), cum_def(F2, kk)], cum(F2, kk + 1) == cum(F, kk + 1), 'positions: step')
        pos = Implies(card(A) > 0, ForAll([k], Implies(And(0 <= k, k <= K), cum(F2, k) == cum(F, k)), patterns=[cum(F2, k)]))
        # every position belongs to a run
        jj = fint('j')
        ob([cum(F, 0) == 1, jj >= 1], Not(jj < cum(F, 0)), 'each position is in a run: base')
        inrun = lambda K: ForAll([j], Implies(And(1 <= j, j < cum(F, K)), Exists([k], And(0 <= k, k < K, cum(F, k) <= j, j < cum(F, k) + F[k]))), patterns=[trg(j)])
        ob([0 <= kk, kk < K, inrun(kk), cum_def(F, kk), 1 <= jj, jj < cum(F, kk + 1), trg(jj)], Exists([k], And(0 <= k, k < kk + 1, cum(F, k) <= jj, jj < cum(F, k) + F[k])), 'each position is in a run: step')
        # the sums of the differences are the identifiers
        ob(wr + rd + same + self.dom + self.set + [hd, card(A) > 0, psum_def(D, 0)], psum(D, 0) == at(A, 0), 'sums: base')
        gg = fint('g')
        ob(wr + self.set + self.dom + [hd, card(A) > 0, 1 <= jj, jj < card(A), 0 <= gg, gg < K, cum(F, gg) <= jj, jj < cum(F, gg) + F[gg], runs, runs1, pos, trg(F2[gg]), trg(cum(F2, gg)), trg(at(A, jj)), trg(at(A, jj - 1))] + rd,
           D[jj] == at(A, jj) - at(A, jj - 1), 'each difference')
        ob(self.set + self.dom + [card(A) > 0, 1 <= jj, jj < card(A), D[jj] == at(A, jj) - at(A, jj - 1), psum(D, jj - 1) == at(A, jj - 1), psum_def(D, jj), trg(at(A, jj)), A[at(A, jj)], A[at(A, jj - 1)]], psum(D, jj) == at(A, jj), 'sums: step')
        sums = Implies(card(A) > 0, ForAll([j], Implies(And(0 <= j, j < card(A)), psum(D, j) == at(A, j)), patterns=[psum(D, j)]))
        sums1 = Implies(card(A) > 0, ForAll([j], Implies(And(0 <= j, j < card(A)), psum(D, j) == at(A, j)), patterns=[at(A, j)]))
        n = ob([hd, pos, trg(cum(F2, ne - 1)), card(A) > 0, K >= 0, cum(F, K) == card(A)], cum(F2, ne - 1) == card(A), 'number of identifiers')
        xx = fint('x')
        ob(self.set + rd + [hd, K >= 0, card(A) > 0, n, sums, sums1, A[xx], trg(rank(A, xx)), trg(at(A, rank(A, xx)))], A2[xx], 'nothing is lost')
        ob(self.set + rd + [hd, K >= 0, card(A) > 0, n, sums, sums1, A2[xx]] + set_facts(A2), A[xx], 'nothing is added')
        ob(self.set + rd + [hd, card(A) == 0] + set_facts(A2), And(Not(A2[xx]), Not(A[xx])), 'the empty list')
        return A2 == A, ln


def lemma_ack(E):
    """What write_ack emitted, put in a packet, is read back by read_ack."""
    w, n0, p, N, nb, nb2, sec = fconst('w', BytesS), fint('n0'), fconst('p', BytesS), fint('N'), fint('nb'), fint('nb2'), fint('sec')
    t = Trip(E, 'acks survive the wire', IntVal(pk.OFF + 3), n0 + 3, w, p)
    k = Int('k')
    wr = fml(ack_format(w, n0, nb, t.A, t.F, t.V, t.K))
    same = [ForAll([k], Implies(And(pk.OFF <= k, k < pk.OFF + N), p[k] == w[n0 + k - pk.OFF]), patterns=[p[k]]), N == ack_len(t.A, t.K), t.K >= 0, all_bytes(p)]
    eq, ln = t.ids(same)
    rd = fml(ack_read(p, N, nb2, t.A2, sec, t.F2, t.V2, t.D))
    t.ob(wr + same, p[pk.OFF] == 0, 'the type is ack')
    t.ob(wr + same + [ln, nb >= 0, nb < 65536], Not(ack_short(p, N)), 'the packet is not too short')
    t.ob(wr + same + rd + [ln, nb >= 0, nb < 65536], And(nb2 == nb, sec == N), 'counter and number of bytes read')


def lemma_repair(E):
    w, n0, p, N = fconst('w', BytesS), fint('n0'), fconst('p', BytesS), fint('N')
    id_, id2, n, n2, es, es2, sec, sym = fint('id'), fint('id2'), fint('n'), fint('n2'), fint('es'), fint('es2'), fint('sec'), fconst('sym', BytesS)
    t = Trip(E, 'repairs survive the wire', pk.OFF + 7 + n, n0 + 7 + n, w, p)
    k = Int('k')
    dom = [n >= 0, n < 65536, id_ >= 0, id_ < 2 ** 32, es >= 0, es < 65536]
    wr = fml(repair_format(w, n0, id_, n, sym, t.A, es, t.F, t.V, t.K))
    same = [ForAll([k], Implies(And(pk.OFF <= k, k < pk.OFF + N), p[k] == w[n0 + k - pk.OFF]), patterns=[p[k]]), N == repair_len(n, t.A, t.K), t.K >= 0, all_bytes(p)] + dom
    eq, ln = t.ids(same)
    rd = fml(repair_read(p, N, id2, n2, es2, t.A2, sec, t.F2, t.V2, t.D))
    hd = t.ob(wr[:4] + same, And(p[pk.OFF] == 1, be(p, pk.OFF + 1, 4) == id_, be(p, pk.OFF + 5, 2) == n), 'header of the packet')
    off = t.ob([hd], REP_OFF(p) == pk.OFF + 7 + n, 'position of the list')
    ln2 = t.ob([off, ln], ids_read_len(p, REP_OFF(p)) == ids_len(t.A, t.K), 'length of the list')
    z = pk.OFF + 7 + n + ids_len(t.A, t.K)
    et = t.ob(wr[-1:] + same, be(p, z, 2) == es, 'encoded size in the packet')
    e2 = be(p, REP_OFF(p) + ids_read_len(p, REP_OFF(p)), 2) == es
    t.ob([off, ln2, et], e2, 'encoded size found')
    t.ob([hd, off, ln2] + same[1:3] + dom, Not(repair_short(p, N)), 'the packet is not too short')
    i = fint('i')
    t.ob(rd[:5] + same[1:3] + dom + [hd, off, ln2, e2], And(id2 == id_, n2 == n, es2 == es, sec == N), 'identifier, sizes and number of bytes read')
    t.ob(wr + same + [0 <= i, i < n, trg(w[n0 + 7 + i])], p[pk.OFF + 7 + i] == sym[i], 'symbol')


def lemma_source(E):
    from .wire import source_format
    w, n0, p, N, sym = fconst('w', BytesS), fint('n0'), fconst('p', BytesS), fint('N'), fconst('sym', BytesS)
    id_, n, i = fint('id'), fint('n'), fint('i')
    t = Trip(E, 'sources survive the wire', IntVal(0), IntVal(0), w, p)
    k = Int('k')
    wr = fml(source_format(w, n0, id_, n, sym))
    same = [ForAll([k], Implies(And(pk.OFF <= k, k < pk.OFF + N), p[k] == w[n0 + k - pk.OFF]), patterns=[p[k]]), N == 7 + n, n >= 0, n < 65536, id_ >= 0, id_ < 2 ** 32]
    t.ob(wr + same, And(p[pk.OFF] == 2, be(p, pk.OFF + 1, 4) == id_, be(p, pk.OFF + 5, 2) == n), 'identifier and size')
    t.ob(wr + same + [be(p, pk.OFF + 5, 2) == n], Not(Or(N < 7, N < 7 + be(p, pk.OFF + 5, 2))), 'the packet is not too short')
    t.ob(wr + same + [0 <= i, i < n, trg(w[n0 + 7 + i])], p[pk.OFF + 7 + i] == sym[i], 'symbol')


def lemmas():
    return [('cum', lemma_cum, ['C05', 'C06', 'C07', 'C08', 'C11', 'C12', 'C13', 'C14', 'C18']), ('ack round trip', lemma_ack, ['C07']), ('repair round trip', lemma_repair, ['C06']),
            ('source round trip', lemma_source, ['C06'])]
