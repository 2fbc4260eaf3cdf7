"""detail::encoder and the window (C05, C11)."""
from z3 import *
from ..theory import *
from ..values import *
from ..ctypes_ import Ty, Break
from ..verify import Contract
from .. import lib
from . import gf, packet as pk, wire

EN = 'ntc::detail::encoder'
SL = 'ntc::detail::source_list'
AAI = ArraySort(I, BytesS)

# sums over the first k sources of a window (identifiers, symbols, sizes)
wsum = Function('wsum', I, BytesS, AAI, BytesS, I, G)
wszs = Function('wszs', I, BytesS, BytesS, I, G)
wmax = Function('wmax', BytesS, I, I)


def scell(syms, szs, k):
    return If(KPOS < szs[k], cell(syms[k], 0), ZERO)


def sum_axioms(r, ids, syms, szs):
    """Recursive definition of the sums, triggered by the identifiers met."""
    k = Int('k')
    return [wsum(r, ids, syms, szs, 0) == ZERO, wszs(r, ids, szs, 0) == ZERO, wmax(szs, 0) == 0,
            ForAll([k], Implies(k >= 0, And(wsum(r, ids, syms, szs, k + 1) == wsum(r, ids, syms, szs, k) ^ act(toG(coef(r, ids[k])), scell(syms, szs, k)),
                                            wszs(r, ids, szs, k + 1) == wszs(r, ids, szs, k) ^ act(toG(coef(r, ids[k])), toG(szs[k])))), patterns=[ids[k]]),
            ForAll([k], Implies(k >= 0, wmax(szs, k + 1) == If(szs[k] > wmax(szs, k), szs[k], wmax(szs, k))), patterns=[szs[k]])]


def window(v):
    """(ids, symbols, sizes, n) of a list of sources."""
    return v.comps['m_id.'], v.comps['m_symbol_buffer.a.'], v.comps['m_symbol_buffer.n'], v.n


def sorted_ids(ids, n, name='sorted'):
    i, j = Ints('i j')
    return ForAll([i, j], Implies(And(0 <= i, i < j, j < n), ids[i] < ids[j]), patterns=[MultiPattern(ids[i], ids[j])])


def sizes_ok(szs, n, ids=None):
    i = Int('i')
    return ForAll([i], Implies(And(0 <= i, i < n), And(szs[i] >= 1, szs[i] < 65536, gf.whole(szs[i]))), patterns=[szs[i]])


def ids_range(ids, n):
    i = Int('i')
    return ForAll([i], Implies(And(0 <= i, i < n), And(ids[i] >= 0, ids[i] < 2 ** 32)), patterns=[ids[i]])


def enc_req(cx):
    w = cx.arg(1).m_sources
    ids, syms, szs, n = window(w)
    r = cx.arg(0)
    return gf.inv(cx.new.m_gf) + [('the window is not empty', n > 0), ('sorted', sorted_ids(ids, n)), ('identifiers', ids_range(ids, n)), ('sizes', sizes_ok(szs, n)),
                                  ('the repair is blank', And(card(r.m_sources_ids.a) == 0, r.m_buffer.n == 0))]


def id_set(A, ids, n):
    i, x = Int('i'), Int('x')
    ix = Function('widx', SetS, I, I)
    return And(ForAll([i], Implies(And(0 <= i, i < n), A[ids[i]]), patterns=[ids[i]]), card(A) == n)


def id_set_rev(A, ids, n):
    """every listed identifier comes from the window (ix: witness)."""
    x = Int('x')
    ix = Function('ix', BytesS, I, I)
    return ForAll([x], Implies(A[x], And(0 <= ix(ids, x), ix(ids, x) < n, ids[ix(ids, x)] == x)), patterns=[A[x]])


def ix_axioms(ids):
    ix = Function('ix', BytesS, I, I)
    i = Int('i')
    x = Int('x')
    # ix(ids, x): the position of x in a strictly increasing sequence (only used for identifiers that occur)
    return []


def enc_post(cx):
    w = cx.oarg(1).m_sources
    ids, syms, szs, n = window(w)
    r0, r = cx.oarg(0), cx.arg(0)
    rid = r0.m_id
    i, x = Int('i'), Int('x')
    A = r.m_sources_ids.a
    j = fint('some') if cx.mode == 'verify' else None
    return [('the repair identifier is kept', r.m_id == rid, ['C05', 'C12']),
            ('lists every source of the window', ForAll([i], Implies(And(0 <= i, i < n), A[ids[i]]), patterns=[ids[i]]), ['C05']),
            ('lists as many identifiers as sources in the window', card(A) == n, ['C05']),
            ('the symbol is as long as the longest datum', r.m_buffer.n == wmax(szs, n)),
            ('longest', And(wmax(szs, n) >= 1, wmax(szs, n) < 65536)),
            ('the symbol is the combination of the window', Implies(KPOS < r.m_buffer.n, cell(r.m_buffer.comps[''], 0) == wsum(rid, ids, syms, szs, n)), ['C05']),
            ('the encoded size is the combination of the sizes', Implies(gf.valid_w(cx.old.m_gf.m_w), toG(r.m_encoded_size) == wszs(rid, ids, szs, n)), ['C05'])]


def enc_pool(L):
    """Loop invariants over a position in the window."""
    E = L.E
    out = []
    win = find_window(E, L.s0)
    if win is None:
        return out
    lv, = win
    w = E.read(L.s0, lv)
    ids, syms, szs, n = window(w)
    reps = [(r, v) for r, v in L.s0.store.items() if isinstance(v, VStruct) and 'm_sources_ids' in v.fields and 'm_buffer' in v.fields]
    its = [l for l, v in L.iters if v.kind == 'seq' and v.lv.same(lv)]
    for il in its:
        for root, v in reps:
            def rd(s, f, root=root):
                return E.read(s, Lv(root).f(f))

            def pos(s, il=il):
                return E.read(s, il).pos
            out += [('ids so far', lambda s, rd=rd, pos=pos: id_set(rd(s, 'm_sources_ids').a, ids, pos(s))),
                    ('ids bounded', lambda s, rd=rd, pos=pos: ForAll([Int('x')], Implies(rd(s, 'm_sources_ids').a[Int('x')], Int('x') <= ids[pos(s) - 1]), patterns=[rd(s, 'm_sources_ids').a[Int('x')]])),
                    ('id kept', lambda s, rd=rd: rd(s, 'm_id') == rd(L.s0, 'm_id')),
                    ('size so far', lambda s, rd=rd, pos=pos: And(rd(s, 'm_buffer').n == wmax(szs, pos(s)), wmax(szs, pos(s)) >= 1, wmax(szs, pos(s)) < 65536, gf.whole(wmax(szs, pos(s))))),
                    ('symbol so far', lambda s, rd=rd, pos=pos: Implies(KPOS < rd(s, 'm_buffer').n, cell(rd(s, 'm_buffer').comps[''], 0) == wsum(rd(s, 'm_id'), ids, syms, szs, pos(s)))),
                    ('nothing beyond', lambda s, rd=rd, pos=pos: Implies(KPOS >= rd(s, 'm_buffer').n, wsum(rd(s, 'm_id'), ids, syms, szs, pos(s)) == ZERO)),
                    ('encoded size so far', lambda s, rd=rd, pos=pos: Implies(gf.valid_w(WBITS), toG(rd(s, 'm_encoded_size')) == wszs(rd(s, 'm_id'), ids, szs, pos(s)))),
                    ('encoded size range', lambda s, rd=rd: And(rd(s, 'm_encoded_size') >= 0, rd(s, 'm_encoded_size') < 65536))]
    return out


def find_window(E, st):
    for r, v in st.store.items():
        if isinstance(v, VStruct) and 'm_sources' in v.fields:
            x = v.fields['m_sources']
            if isinstance(x, VVec):
                return (Lv(r).f('m_sources'),)
            if isinstance(x, VStruct) and 'm_sources' in x.fields:
                return (Lv(r).f('m_sources').f('m_sources'),)
    return None


def enc_lemmas(cx):
    ids, syms, szs, n = window(cx.arg(1).m_sources)
    return sum_axioms(cx.arg(0).m_id, ids, syms, szs)


def contracts():
    return gf.contracts() + [
        Contract(EN + '::operator()', requires=enc_req, ensures=enc_post, modifies=lambda cx: [cx.args[0]], pool=enc_pool, lemmas=enc_lemmas),
    ]
