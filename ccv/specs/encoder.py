"""ntc::encoder and its window (C05, C11, C12, C13, C18)."""
from z3 import *
from ..theory import *
from ..values import *
from ..ctypes_ import Ty, Break
from ..verify import Contract
from .. import lib
from . import gf, packet as pk, wire, ids, enc
from .wire import be, bytes_ok, prefix_kept, written, wmods, init_wire, OVF
from .enc import window, sorted_ids, sizes_ok, SL

NE = 'ntc::encoder'
CL = ['ntc::encoder<ccv_packet_handler>']
PTE = 'ntc::packet_type_error'

kept = Function('kept', SetS, BytesS, I, I)     # how many of the first k identifiers are not in the set
kwit = Function('kwit', SetS, BytesS, I, I, I)


def kept_step(A, ids_, k):
    return And(kept(A, ids_, 0) == 0, Implies(k >= 0, kept(A, ids_, k + 1) == kept(A, ids_, k) + If(A[ids_[k]], IntVal(0), IntVal(1))))


def kept_gap(A, ids_, q, m):
    """Between q and m either all are kept or one (the witness) is not."""
    w = kwit(A, ids_, q, m)
    return Or(kept(A, ids_, m) == kept(A, ids_, q) + m - q, And(q <= w, w < m, A[ids_[w]]))


def kept_axioms(A, ids_):
    k, q = Ints('k q')
    return [kept(A, ids_, 0) == 0, ForAll([k], kept_step(A, ids_, k), patterns=[ids_[k]]),
            ForAll([q, k], Implies(And(0 <= q, q <= k), kept_gap(A, ids_, q, k)), patterns=[MultiPattern(kept(A, ids_, q), kept(A, ids_, k))])]


def lemma_kept(E):
    from ..engine import St
    E.raw = True
    A, f, q, m, w = fconst('A', SetS), fconst('ids', BytesS), fint('q'), fint('m'), fint('w')

    def ob(h, g, nm):
        s = St()
        s.assume(*h)
        E.oblige(s, g, nm, 'induction', kind='lemma')
    i = Int('i')
    none = lambda q, m: ForAll([i], Implies(And(q <= i, i < m), Not(A[f[i]])))
    ob([], kept(A, f, q) == kept(A, f, q) + q - q, 'kept-gap: base')
    ob([0 <= q, q <= m, Implies(none(q, m), kept(A, f, m) == kept(A, f, q) + m - q), kept_step(A, f, m), none(q, m + 1)], kept(A, f, m + 1) == kept(A, f, q) + m + 1 - q, 'kept-gap: step')


# ---------- the window ----------------------------------------------------------------------------------------
def erase_setup(cx):
    """The iterators designate a whole list of identifiers."""
    E, st = cx.E, cx.st
    ty = E.T.get('boost::container::flat_set<unsigned int, std::less<unsigned int>, void>')
    a = fconst('acked', SetS)
    st.store['$acked'] = VSet(ty, a)
    lib.setfacts(E, st, a, True)
    st.store[cx.args[0].root] = VIter('seq', Lv('$acked'), pos=IntVal(0))
    st.store[cx.args[1].root] = VIter('seq', Lv('$acked'), pos=card(a))


def erase_args(cx):
    b, e = cx.E.read(cx.st, cx.args[0]), cx.E.read(cx.st, cx.args[1])
    if not (isinstance(b, VIter) and isinstance(e, VIter) and b.lv.same(e.lv)):
        raise Break('arguments of erase')
    v = cx.E.read(cx.st, b.lv)
    if not isinstance(v, VSet):
        raise Break('arguments of erase')
    return b, e, v.a


def win_inv(w, last=None):
    ids_, syms, szs, n = window(w)
    i = Int('i')
    out = [('the window is sorted', sorted_ids(ids_, n)), ('identifiers of the window', enc.ids_range(ids_, n)), ('sizes in the window', sizes_ok(szs, n))]
    if last is not None:
        out.append(('identifiers are below the next one', ForAll([i], Implies(And(0 <= i, i < n), ids_[i] < last), patterns=[ids_[i]])))
    return out


def erase_req(cx):
    b, e, A = erase_args(cx)
    return win_inv(cx.new.m_sources) + [('the whole list', And(b.pos == 0, e.pos == card(A)))]


def pairs(v0, v1):
    return [(v0.comps[p], v1.comps[p]) for p in sorted(v0.comps)]


def erased(v0, v1, A):
    """v1 is v0 without the sources listed in A."""
    i = Int('i')
    ids0 = v0.comps['m_id.']
    ids1 = v1.comps['m_id.']
    kp = lambda i: kept(A, ids0, i)
    return [('as many sources as were not listed', v1.n == kp(v0.n)),
            ('sources that were not listed are kept, in order', ForAll([i], Implies(And(0 <= i, i < v0.n, Not(A[ids0[i]])), And(kp(i) >= 0, kp(i) < v1.n, *[b[kp(i)] == a[i] for a, b in pairs(v0, v1)])), patterns=[ids0[i]])),
            ('no listed source remains', ForAll([i], Implies(And(0 <= i, i < v1.n), Not(A[ids1[i]])), patterns=[ids1[i]]))]


def erase_post(cx):
    b, e, A = erase_args(cx)
    v0, v1 = cx.old.m_sources, cx.new.m_sources
    if cx.mode != 'verify':
        lib.setfacts(cx.E, cx.st, A, True)
    return [(n, f, ['C11']) for n, f in erased(v0, v1, A)] + carried(v0, v1) + [('not more', And(v1.n >= 0, v1.n <= v0.n))]


def carried(v0, v1):
    """The window stays well-formed and no identifier grows."""
    i = Int('i')
    ids0, n0 = window(v0)[0], v0.n
    ids1, n1 = window(v1)[0], v1.n
    return win_inv(v1) + [('no identifier is new', ForAll([i], Implies(And(0 <= i, i < n1), And(n0 > 0, ids1[i] <= ids0[n0 - 1])), patterns=[ids1[i]]))]


def erase_lemmas(cx):
    b, e, A = erase_args(cx)
    lib.setfacts(cx.E, cx.st, A, True)
    return kept_axioms(A, window(cx.new.m_sources)[0])


def win_pool(L):
    """Loops that walk along or shorten the window."""
    E, s0 = L.E, L.s0
    win = enc.find_window(E, s0)
    if win is None:
        return []
    lv, = win
    mods = {(r, p) for r, p in L.mods}
    if not any(r == lv.root and (p[:len(lv.path)] == lv.path or lv.path[:len(p)] == p) for r, p in mods):
        return []
    v0 = E.read(s0, lv)
    w = lambda s: E.read(s, lv)
    i, j, x = Ints('i j x')
    gone = lambda s: v0.n - w(s).n
    out = [('some were removed', lambda s: And(w(s).n <= v0.n, w(s).n >= 0)),
           ('the front was removed', lambda s: And([ForAll([i], Implies(And(0 <= i, i < w(s).n), b[i] == a[i + gone(s)]), patterns=[b[i]]) for a, b in pairs(v0, w(s))])),
           ] + [(nm, lambda s, k=k: carried(v0, w(s))[k][1]) for k, (nm, _) in enumerate(carried(v0, v0))]
    for k in [x for r, v in s0.store.items() if isinstance(v, VStruct) and 'm_window_size' in v.fields for x in [Lv(r).f('m_window_size')]]:
        out.append(('not more than needed', lambda s, k=k: Or(w(s).n == v0.n, w(s).n + 1 >= E.read(s, k))))
    its = [l for l, v in L.iters if v.kind == 'seq' and v.lv.same(lv)]
    sets = [(l, v) for l, v in L.iters if v.kind == 'seq' and isinstance(E.read(s0, v.lv), VSet)]
    for il in its:
        p = lambda s, il=il: E.read(s, il).pos
        q = lambda s, p=p: p(s) + gone(s)
        out += [('the rest is untouched', lambda s, p=p: And([ForAll([i], Implies(And(p(s) <= i, i < w(s).n), b[i] == a[i + gone(s)]), patterns=[b[i]]) for a, b in pairs(v0, w(s))])),
                ('the rest is untouched (old)', lambda s, q=q: And([ForAll([i], Implies(And(q(s) <= i, i < v0.n), b[i - gone(s)] == a[i]), patterns=[a[i]]) for a, b in pairs(v0, w(s))]))]
        for sl, sv in sets:
            A = E.read(s0, sv.lv).a
            c = lambda s, sl=sl: E.read(s, sl).pos
            ids0 = v0.comps['m_id.']
            kp = lambda k, A=A, ids0=ids0: kept(A, ids0, k)
            out += [('kept so far', lambda s, p=p, q=q, kp=kp: kp(q(s)) == p(s)),
                    ('places', lambda s, p=p, q=q, kp=kp, ids0=ids0: ForAll([i], Implies(And(0 <= i, i < q(s)), And(kp(i) >= 0, kp(i) <= p(s))), patterns=[ids0[i]])),
                    ('kept sources', lambda s, p=p, q=q, kp=kp, A=A, ids0=ids0: ForAll([i], Implies(And(0 <= i, i < q(s), Not(A[ids0[i]])), And(kp(i) >= 0, kp(i) < p(s), *[b[kp(i)] == a[i] for a, b in pairs(v0, w(s))])), patterns=[ids0[i]])),
                    ('none listed so far', lambda s, p=p, A=A: ForAll([i], Implies(And(0 <= i, i < p(s)), Not(A[window(w(s))[0][i]])), patterns=[window(w(s))[0][i]])),
                    ('identifiers passed', lambda s, p=p, c=c, A=A: Implies(p(s) < w(s).n, ForAll([x], Implies(And(A[x], rank(A, x) < c(s)), x < window(w(s))[0][p(s)]), patterns=[A[x]])))]
    return out



# ---------- the encoder -----------------------------------------------------------------------------------------
def enc_inv(o):
    """Class invariant."""
    return gf.inv(o.m_encoder.m_gf) + win_inv(o.m_sources.m_sources, o.m_current_source_id) + \
        [('rate', o.m_rate >= 1), ('window size', o.m_window_size >= 1), ('identifiers do not wrap', And(o.m_current_source_id < 2 ** 32 - 1, o.m_current_repair_id < 2 ** 32 - 2))]


def inv_after(o, bound=2):
    return gf.inv(o.m_encoder.m_gf) + win_inv(o.m_sources.m_sources, o.m_current_source_id) + [('rate', o.m_rate >= 1, ['C12', 'C13', 'C18'])]


def gr_req(cx):
    o = cx.new
    return gf.inv(o.m_encoder.m_gf) + win_inv(o.m_sources.m_sources) + [('the window is not empty', o.m_sources.m_sources.n > 0), ('identifiers do not wrap', o.m_current_repair_id < 2 ** 32 - 1)]


def gr_lemmas(cx):
    o = cx.new
    ids_, syms, szs, n = window(o.m_sources.m_sources)
    return enc.sum_axioms(o.m_current_repair_id, ids_, syms, szs)


def gr_post(cx):
    o0, o = cx.old, cx.new
    a0, n0, a1, n1 = written(cx)
    rid = o0.m_current_repair_id
    R = o.m_repair
    ids_, syms, szs, n = window(o.m_sources.m_sources)
    i = Int('i')
    F, V, K = ids.rle(cx)
    A = R.m_sources_ids.a
    out = [('one packet is emitted', cx.st.store['$ends'] == cx.pre.store['$ends'] + 1, ['C12']),
           ('earlier bytes are kept', prefix_kept(a1, a0, n0), ['C12']),
           ('it is a repair with the next identifier', And(a1[n0] == 1, be(a1, n0 + 1, 4) == rid, n1 > n0 + 4), ['C12', 'C05']),
           ('the next repair gets the next identifier', o.m_current_repair_id == rid + 1),
           ('the counter of repairs grows by one', o.m_nb_sent_repairs == (o0.m_nb_sent_repairs + 1) % 2 ** 64, ['C12']),
           ('the packets since the last ack are counted', o.m_nb_sent_packets == (o0.m_nb_sent_packets + 1) % 65536, ['C13'])]
    out += [(nm, f, ['C05']) for nm, f in ids.repair_format(a1, n0, R.m_id, R.m_buffer.n, R.m_buffer.comps[''], A, R.m_encoded_size, F, V, K)]
    out += [('emitted: the identifier', R.m_id == rid, ['C05']),
            ('emitted: lists every source of the window', ForAll([i], Implies(And(0 <= i, i < n), A[ids_[i]]), patterns=[ids_[i]]), ['C05']),
            ('emitted: lists nothing else', card(A) == n, ['C05']),
            ('emitted: the symbol is as long as the longest datum', R.m_buffer.n == enc.wmax(szs, n), ['C05']),
            ('emitted: the symbol is the combination of the window', Implies(KPOS < R.m_buffer.n, cell(R.m_buffer.comps[''], 0) == enc.wsum(rid, ids_, syms, szs, n)), ['C05']),
            ('emitted: the encoded size is the combination of the sizes', Implies(gf.valid_w(o0.m_encoder.m_gf.m_w), toG(R.m_encoded_size) == enc.wszs(rid, ids_, szs, n)), ['C05'])]
    return out


def bufs_of(cx):
    p = cx.this.f('m_packetizer')
    return [p.f('m_difference_buffer'), p.f('m_rle_buffer')]


def gr_mods(cx):
    t = cx.this
    return wmods(cx) + bufs_of(cx) + [t.f('m_repair'), t.f('m_current_repair_id'), t.f('m_nb_sent_repairs'), t.f('m_nb_sent_packets')]


def data_of(cx):
    return cx.oarg(0)


def commit_req(cx):
    d = cx.arg(0)
    return enc_inv(cx.new) + [('size of the datum', And(d.n >= 1, d.n < 65536, gf.whole(d.n)))]


def systematic(o):
    return o.m_code_type == 0


def commit_post(cx):
    o0, o = cx.old, cx.new
    d = data_of(cx)
    a0, n0, a1, n1 = written(cx)
    v0, v1 = o0.m_sources.m_sources, o.m_sources.m_sources
    i = Int('i')
    id_ = o0.m_current_source_id
    e = If(v0.n >= o0.m_window_size, v0.n - o0.m_window_size + 1, IntVal(0))
    ids1, syms1, szs1, m = window(v1)
    extra = (id_ + 1) % o0.m_rate == 0
    sy = systematic(o0)
    p2 = n0 + 7 + d.n
    nb = IntVal(1) + If(extra, 1, 0)
    nrep = If(sy, 0, 1) + If(extra, 1, 0)
    e0, e1 = cx.pre.store['$ends'], cx.st.store['$ends']
    rid = o0.m_current_repair_id
    T = ['C12']
    W = ['C11', 'C05']
    out = [('the window is not larger than its limit', m <= o0.m_window_size, ['C11']),
           ('exactly the oldest excess data are evicted', m == v0.n - e + 1, W),
           ('the other data are kept in order', And([ForAll([i], Implies(And(0 <= i, i < m - 1), b[i] == a[i + e]), patterns=[b[i]]) for a, b in pairs(v0, v1)]), W),
           ('the new datum is the last one', And(m >= 1, ids1[m - 1] == id_, syms1[m - 1] == d.comps[''], szs1[m - 1] == d.n), W),
           ('sources are numbered consecutively', o.m_current_source_id == id_ + 1, ['C11', 'C12']),
           ('repairs are numbered consecutively', o.m_current_repair_id == rid + nrep, T),
           ('number of packets emitted', e1 == e0 + nb, T),
           ('earlier packets are kept', prefix_kept(a1, a0, n0), T),
           ('systematic: the first packet is the source', Implies(sy, And(a1[n0] == 2, be(a1, n0 + 1, 4) == id_)), T),
           ('systematic: nothing else without a repair', Implies(And(sy, Not(extra)), n1 == p2), T),
           ('systematic: then the repair', Implies(And(sy, extra), And(a1[p2] == 1, be(a1, p2 + 1, 4) == rid, n1 > p2)), T),
           ('non-systematic: the first packet is a repair', Implies(Not(sy), And(a1[n0] == 1, be(a1, n0 + 1, 4) == rid)), T),
           ('the counter of sources', o.m_nb_sent_sources == (o0.m_nb_sent_sources + If(sy, 1, 0)) % 2 ** 64, T),
           ('the counter of repairs', o.m_nb_sent_repairs == (o0.m_nb_sent_repairs + nrep) % 2 ** 64, T),
           ('the packets since the last ack are counted', o.m_nb_sent_packets == (o0.m_nb_sent_packets + nb) % 65536, ['C13'])]
    for nm, f in wire.source_format(a1, n0, id_, d.n, d.comps['']):
        out.append(('systematic: source packet: ' + nm, Implies(sy, f), T))
    return out + [('invariant: ' + x[0],) + tuple(x[1:]) for x in inv_after(o)]


def commit_mods(cx):
    t = cx.this
    return gr_mods(cx) + [t.f('m_sources'), t.f('m_current_source_id'), t.f('m_nb_sent_sources')]


def notify_req(cx):
    p = cx.arg(0)
    return enc_inv(cx.new) + [('valid packet', And(pk.inv(p), pk.size(p) >= 1))]


def notify_lemmas(cx):
    a = cx.arg(0).m_buffer.comps['']
    return [ids.all_bytes(a)]


def rate_ok(o0, o, nb):
    s = o0.m_nb_sent_packets
    l = s - nb
    r = o.m_rate
    return [('without adaptive mode the rate is kept', Implies(Not(o0.m_adaptive), r == o0.m_rate)),
            ('adaptive: the rate lies between 1 and 50', Implies(o0.m_adaptive, And(r >= 1, r <= 50))),
            ('adaptive: 50 when less than 1% was lost', Implies(And(o0.m_adaptive, Or(s == 0, 100 * l < s)), r == 50)),
            ('adaptive: half the inverse of the loss ratio, rounded up', Implies(And(o0.m_adaptive, s > 0, 100 * l >= s), And(2 * l * r >= s, 2 * l * (r - 1) <= s)))]


def notify_post(cx):
    o0, o = cx.old, cx.new
    a, n = wire.pbytes(cx)
    v0, v1 = o0.m_sources.m_sources, o.m_sources.m_sources
    if cx.mode != 'verify':
        cx.st.store['$ackids'] = fconst('ackids', SetS)
    A = cx.st.store.get('$ackids')
    out = [('only acks are accepted', a[pk.OFF] == 0, ['C18', 'C11', 'C13']),
           ('the ack counter grows by one', o.m_nb_acks == (o0.m_nb_acks + 1) % 2 ** 64, ['C12', 'C18']),
           ('the number of bytes read is at most the packet size', And(cx.res >= 0, cx.res <= n), ['C08']),
           ('a fresh count starts', o.m_nb_sent_packets == 0, ['C13'])]
    out += [(nm, f, ['C13']) for nm, f in rate_ok(o0, o, be(a, pk.OFF + 1, 2))]
    if A is None:
        raise Break('no ack was read')
    out += [(nm, f, ['C11']) for nm, f in erased(v0, v1, A)]
    return out + [('invariant: ' + x[0],) + tuple(x[1:]) for x in inv_after(o)]


def nothing_changed(cx):
    """After an exception."""
    o0, o = cx.old, cx.new
    v0, v1 = o0.m_sources.m_sources, o.m_sources.m_sources
    return [('a rejected packet leaves the window alone', And(v0.n == v1.n, *[a == b for a, b in pairs(v0, v1)]), ['C18', 'C11']),
            ('a rejected packet leaves the rate alone', o.m_rate == o0.m_rate, ['C18', 'C13']),
            ('a rejected packet emits nothing', cx.st.store['$ends'] == cx.pre.store['$ends'], ['C18', 'C12'])]


def not_ack(cx):
    a, n = wire.pbytes(cx)
    return [('only if the first byte is not an ack', a[pk.OFF] != 0, ['C18'])] + nothing_changed(cx)


def notify_short(cx):
    a, n = wire.pbytes(cx)
    return [('only for acks', a[pk.OFF] == 0, ['C18'])] + nothing_changed(cx)


def notify_mods(cx):
    t = cx.this
    return [t.f('m_nb_acks'), t.f('m_rate'), t.f('m_nb_sent_packets'), t.f('m_sources')] + bufs_of(cx)


def ctor_post(cx):
    o = cx.new
    z = lambda *fs: And([getattr(o, f) == 0 for f in fs])
    return [('numbering starts at 0', z('m_current_source_id', 'm_current_repair_id'), ['C12', 'C11']), ('counters start at 0', z('m_nb_sent_repairs', 'm_nb_sent_sources', 'm_nb_acks'), ['C12']),
            ('nothing was sent', o.m_nb_sent_packets == 0, ['C13']), ('the window is empty', o.m_sources.m_sources.n == 0, ['C11', 'C12']),
            ('rate', o.m_rate >= 1), ('window size', o.m_window_size >= 1)]


def rate_post(cx):
    x, r = cx.oarg(0), cx.res
    e = RealVal('1/10000000')
    return [('50 below 1%', Implies(x < RealVal('0.0099999999'), r == 50)), ('between 1 and 50', And(r >= 1, r <= 50)),
            ('half the inverse, rounded up', Implies(x >= RealVal('0.0099999999'), And(2 * x * ToReal(r) >= 1 - e, 2 * x * ToReal(r - 1) <= 1 + e)))]


def pool(L):
    return enc.enc_pool(L) + win_pool(L) + ids.codec_pool(L)


def contracts():
    w = [c for c in wire.contracts() + ids.contracts()]
    for c in w:
        if c.name.endswith('::read_ack'):
            c.effect = lambda cx: cx.st.store.__setitem__('$ackids', cx.res.first.m_source_ids.a) if getattr(cx, 'throwing', None) is None else None
    return w + enc.contracts() + [
        Contract(SL + '::erase', setup=erase_setup, requires=erase_req, ensures=erase_post, modifies=lambda cx: [cx.this.f('m_sources')], pool=win_pool, lemmas=erase_lemmas),
        Contract(NE + '::rate_for_loss', cls=CL, requires=lambda cx: [('at most everything was lost', cx.arg(0) <= 1)], ensures=rate_post),
        Contract(NE + '::generate_repair', cls=CL, setup=wire.ghosts, requires=gr_req, lemmas=gr_lemmas, ensures=gr_post, modifies=gr_mods, pool=pool),
        Contract(NE + '::commit_impl', cls=CL, setup=wire.ghosts, requires=commit_req, ensures=commit_post, modifies=commit_mods, pool=pool),
        Contract(NE + '::notify_impl', cls=CL, setup=wire.ghosts, requires=notify_req, lemmas=notify_lemmas, ensures=notify_post, throws={PTE: not_ack, OVF: notify_short}, modifies=notify_mods, pool=pool),
        Contract(NE + '::ctor(unsigned char,ccv_packet_handler)', cls=CL, setup=wire.ghosts, ensures=ctor_post, throws={'std::runtime_error': lambda cx: []}),
    ]


prepare = wire.prepare


def lemmas():
    return [('kept', lemma_kept, ['C11', 'C05', 'C12', 'C13', 'C18'])]
