"""ntc::decoder, routing by type, acks (C14, C18)."""
from z3 import *
from ..theory import *
from ..values import *
from ..ctypes_ import Ty, Break
from ..verify import Contract
from .. import lib
from . import gf, packet as pk, wire, ids, enc, encoder as en
from .wire import be, bytes_ok, prefix_kept, written, wmods, OVF
from .encoder import PTE, NE

ND = 'ntc::decoder'
DD = 'ntc::detail::decoder'
CL = ['ntc::decoder<ccv_packet_handler, ccv_data_handler>']


# ---------- types -------------------------------------------------------------------------------------------
def first(cx, i=0, st=None):
    return cx.arg(i, cx.pre if cx.pre is not None else cx.st).m_buffer.comps[''][pk.OFF]


def valid(cx, i=0):
    p = cx.arg(i)
    return [('valid packet', And(pk.inv(p), pk.size(p) >= 1))]


def type_post(cx):
    t = first(cx)
    return [('the type is the first byte', cx.res == t), ('one of the three types', And(t >= 0, t <= 2))]


def type_throw(cx):
    return [('only for another first byte', Or(first(cx) < 0, first(cx) > 2))]


# ---------- acks --------------------------------------------------------------------------------------------
def ack_req(cx):
    return [('the ack under construction is empty', card(cx.new.m_ack.m_source_ids.a) == 0)]


def srcs(o):
    return o.m_decoder.m_sources.dom


def ack_post(cx):
    o0, o = cx.old, cx.new
    a0, n0, a1, n1 = written(cx)
    A = srcs(o0)
    F, V, K = ids.rle(cx)
    lib.setfacts(cx.E, cx.st, A, True)
    out = [('one packet is emitted', cx.st.store['$ends'] == cx.pre.store['$ends'] + 1), ('earlier bytes are kept', prefix_kept(a1, a0, n0), ['C14']),
           ('length of the ack', n1 == n0 + ids.ack_len(A, K), ['C14']),
           ('the acks are counted', o.m_nb_sent_ack == (o0.m_nb_sent_ack + 1) % 2 ** 64, ['C14']),
           ('a fresh count starts', o.m_ack.m_nb_packets == 0, ['C14']),
           ('a fresh list starts', card(o.m_ack.m_source_ids.a) == 0)]
    return out + [('the ack lists exactly the held sources: ' + nm, f, ['C14']) for nm, f in ids.ack_format(a1, n0, o0.m_ack.m_nb_packets, A, F, V, K)]


def ack_mods(cx):
    t = cx.this
    p = t.f('m_packetizer')
    return wmods(cx) + [p.f('m_difference_buffer'), p.f('m_rle_buffer'), t.f('m_ack'), t.f('m_nb_sent_ack')]


def ack_pool(L):
    E, s0 = L.E, L.s0
    out = []
    for r, v in s0.store.items():
        if isinstance(v, VStruct) and 'm_ack' in v.fields and 'm_decoder' in v.fields:
            lv = Lv(r)
            A = E.read(s0, lv.f('m_decoder').f('m_sources')).dom
            ack = lambda s, lv=lv: E.read(s, lv.f('m_ack').f('m_source_ids')).a
            x = Int('x')
            for il, i0 in L.iters:
                if i0.kind == 'map':
                    it = lambda s, il=il: E.read(s, il)
                    out += [('listed so far', lambda s, it=it, ack=ack: ForAll([x], ack(s)[x] == And(A[x], Or(it(s).end, x < it(s).pos)), patterns=[ack(s)[x]])),
                            ('listed so far (held)', lambda s, it=it, ack=ack: ForAll([x], ack(s)[x] == And(A[x], Or(it(s).end, x < it(s).pos)), patterns=[A[x]]))]
    return out + ids.codec_pool(L)


def maybe_post(cx):
    o0, o = cx.old, cx.new
    e0, e1 = cx.pre.store['$ends'], cx.st.store['$ends']
    nb, thr, per = o0.m_ack.m_nb_packets, o0.m_ack_nb_packets, o0.m_ack_period
    acked = e1 == e0 + 1
    out = [('at most one ack', Or(e1 == e0, e1 == e0 + 1), ['C14']),
           ('an ack when the threshold is reached', Implies(nb >= thr, acked), ['C14']),
           ('no ack below the threshold without a period', Implies(And(nb < thr, per == 0), e1 == e0), ['C14']),
           ('without an ack nothing changes', Implies(e1 == e0, And(o.m_ack.m_nb_packets == nb, o.m_last_ack_date == o0.m_last_ack_date, cx.st.store['$wire'].n == cx.pre.store['$wire'].n)), ['C14']),
           ('the list under construction is empty', card(o.m_ack.m_source_ids.a) == 0),
           ('after an ack the count starts afresh', Implies(acked, o.m_ack.m_nb_packets == 0), ['C14'])]
    if cx.mode == 'verify':
        now = cx.st.store.get('$now')
        if now is None:
            now = fint('never')
        F, V, K = cx.st.store.get('$rle') or (fconst('F', BytesS), fconst('V', BytesS), fint('K'))
    else:
        now = cx.st.store['$now'] = fint('now')
        F, V, K = ids.rle(cx)
    out += [('an ack when the period has elapsed', Implies(And(nb < thr, per != 0), acked == (now - o0.m_last_ack_date >= per)), ['C14']),
            ('the date of the ack is kept', Implies(acked, o.m_last_ack_date == now), ['C14'])]
    a0, n0, a1, n1 = written(cx)
    A = srcs(o0)
    lib.setfacts(cx.E, cx.st, A, True)
    out += [('the ack lists exactly the held sources: ' + nm, Implies(acked, f), ['C14']) for nm, f in ids.ack_format(a1, n0, o0.m_ack.m_nb_packets, A, F, V, K)]
    return out


def maybe_mods(cx):
    return ack_mods(cx) + [cx.this.f('m_last_ack_date')]


# ---------- reception -----------------------------------------------------------------------------------------
def dec_setup(cx):
    wire.ghosts(cx)
    cx.st.store['$handed'] = fint('handed')
    cx.E.roottypes['$handed'] = None
    cx.st.store['$counted'] = cx.E.read(cx.st, cx.this.f('m_ack').f('m_nb_packets'))


def handed_setup(cx):
    wire.ghosts(cx)
    cx.st.store['$handed'] = fint('handed')
    cx.E.roottypes['$handed'] = None


def data_handler(E, st, f, obj, args, n):
    if '$handed' in st.store:
        E.write(st, Lv('$handed'), st.store['$handed'] + 1)
    p, k = E.val(st, args[0]), E.val(st, args[1])
    if isinstance(p, VPtr):
        st.store['$data'] = (p, k)
    yield st, VOID


def prepare(E):
    wire.prepare(E)
    E.hooks['ccv_data_handler::operator()'] = data_handler


def inner_req(cx):
    """The packet is counted before it is processed: an ack emitted meanwhile covers it."""
    c = cx.st.store.get('$counted')
    if cx.mode != 'call' or c is None:
        return []
    nb = cx.E.read(cx.st, owner(cx).f('m_ack').f('m_nb_packets'))
    return [('the packet is counted once, before it is processed', nb == (c + 1) % 65536, ['C14'])]


def owner(cx):
    return Lv(cx.this.root, cx.this.path[:-1])


def inner_mods(cx):
    """The decoder proper acts on its owner through handle_source only."""
    t = owner(cx)
    p = t.f('m_packetizer')
    return [cx.this] + wmods(cx) + [p.f('m_difference_buffer'), p.f('m_rle_buffer'), t.f('m_ack'), t.f('m_nb_sent_ack'), t.f('m_last_ack_date'), Lv('$handed')]


def inner_post(cx):
    t = owner(cx)
    e0, e1 = cx.pre.store['$ends'], cx.st.store['$ends']
    nb0, nb1 = cx.E.read(cx.pre, t.f('m_ack').f('m_nb_packets')), cx.E.read(cx.st, t.f('m_ack').f('m_nb_packets'))
    return [('acks', And(e1 >= e0, nb1 == If(e1 == e0, nb0, IntVal(0)))), ('ack under construction', card(cx.E.read(cx.st, t.f('m_ack').f('m_source_ids')).a) == 0)]


def recv_req(cx):
    return valid(cx) + ack_req(cx)


def recv_post(cx):
    t = first(cx)
    o0, o = cx.old, cx.new
    n = wire.pbytes(cx)[1]
    e0, e1 = cx.pre.store['$ends'], cx.st.store['$ends']
    return [('only sources and repairs are accepted', Or(t == 1, t == 2), ['C18']),
            ('the number of bytes read is at most the packet size', And(cx.res >= 0, cx.res <= n), ['C08', 'C18']),
            ('received packets are counted by type', And(o.m_nb_received_repairs == (o0.m_nb_received_repairs + If(t == 1, 1, 0)) % 2 ** 64, o.m_nb_received_sources == (o0.m_nb_received_sources + If(t == 2, 1, 0)) % 2 ** 64), ['C18']),
            ('the packet is counted for the next ack', Implies(e1 == e0, o.m_ack.m_nb_packets == (o0.m_ack.m_nb_packets + 1) % 65536), ['C14']),
            ('ack under construction', card(o.m_ack.m_source_ids.a) == 0)]


def same_obj(E, s0, s1, lv):
    from ..verify import terms
    a, b = E.read(s0, lv), E.read(s1, lv)
    return And([x == y for x, y in zip(terms(a), terms(b)) if not x.eq(y)] or [BoolVal(True)])


def untouched(cx):
    E = cx.E
    return [('a rejected packet leaves the held sources and repairs alone', same_obj(E, cx.pre, cx.st, cx.this.f('m_decoder')), ['C18']),
            ('nothing is handed over', cx.st.store['$handed'] == cx.pre.store['$handed'], ['C18']),
            ('no ack is emitted', And(cx.st.store['$ends'] == cx.pre.store['$ends'], cx.st.store['$wire'].n == cx.pre.store['$wire'].n), ['C18'])]


def recv_type(cx):
    t = first(cx)
    return [('only for another first byte', And(t != 1, t != 2), ['C18'])] + untouched(cx)


def recv_short(cx):
    t = first(cx)
    return [('only for sources and repairs', Or(t == 1, t == 2), ['C18'])] + untouched(cx)


def recv_mods(cx):
    t = cx.this
    p = t.f('m_packetizer')
    return wmods(cx) + [p.f('m_difference_buffer'), p.f('m_rle_buffer'), t.f('m_ack'), t.f('m_nb_sent_ack'), t.f('m_last_ack_date'), t.f('m_decoder'), Lv('$handed'), t.f('m_nb_received_repairs'), t.f('m_nb_received_sources')]


def recv_lemmas(cx):
    return [ids.all_bytes(cx.arg(0).m_buffer.comps[''])]


def handle_req(cx):
    return ack_req(cx)


def handle_post(cx):
    out = [('exactly one datum is handed over', cx.st.store['$handed'] == cx.pre.store['$handed'] + 1, ['C14', 'C02', 'C01'])]
    d = cx.st.store.get('$data')
    src = cx.oarg(0)
    if cx.mode == 'verify' and d is not None:
        p, k = d
        v = cx.E.read(cx.st, p.lv)
        out += [('what is handed over is the symbol', And(p.off == pk.OFF + 7, v.comps[''] == src.m_symbol_buffer.m_buffer.comps[''], k == src.m_symbol_size), ['C14', 'C01'])]
    return out + [it for it in maybe_post(cx)]


# ---------- dispatch --------------------------------------------------------------------------------------------
def disp_setup(cx):
    wire.ghosts(cx)
    handed_setup(cx)


def disp_req(cx):
    from ..verify import View
    dec = View(cx.E, cx.st, cx.args[1])
    encv = View(cx.E, cx.st, cx.args[0])
    return valid(cx, 2) + [('ack under construction', card(dec.m_ack.m_source_ids.a) == 0)] + en.enc_inv(encv)


def disp_post(cx):
    t = first(cx, 2)
    E = cx.E
    return [('acks go to the encoder only', Implies(t == 0, same_obj(E, cx.pre, cx.st, cx.args[1])), ['C18']),
            ('sources and repairs go to the decoder only', Implies(t != 0, same_obj(E, cx.pre, cx.st, cx.args[0])), ['C18']),
            ('an ack is taken into account', Implies(t == 0, cx.arg(0).m_nb_acks == (cx.oarg(0).m_nb_acks + 1) % 2 ** 64), ['C18']),
            ('a source or repair is taken into account', Implies(t != 0, And(cx.arg(1).m_nb_received_repairs == (cx.oarg(1).m_nb_received_repairs + If(t == 1, 1, 0)) % 2 ** 64,
                                                                          cx.arg(1).m_nb_received_sources == (cx.oarg(1).m_nb_received_sources + If(t == 2, 1, 0)) % 2 ** 64)), ['C18']),
            ('nothing else is accepted', And(t >= 0, t <= 2), ['C18'])]


def disp_untouched(cx):
    E = cx.E
    e = cx.args[0]
    return [('a rejected packet leaves the held sources and repairs alone', same_obj(E, cx.pre, cx.st, cx.args[1].f('m_decoder')), ['C18']),
            ('a rejected packet leaves the window alone', same_obj(E, cx.pre, cx.st, e.f('m_sources')), ['C18']),
            ('a rejected packet leaves the rate alone', same_obj(E, cx.pre, cx.st, e.f('m_rate')), ['C18']),
            ('nothing is handed over', cx.st.store['$handed'] == cx.pre.store['$handed'], ['C18']),
            ('nothing is emitted', cx.st.store['$ends'] == cx.pre.store['$ends'], ['C18'])]


def disp_type(cx):
    t = first(cx, 2)
    return [('only for an unknown first byte', Or(t < 0, t > 2), ['C18'])] + disp_untouched(cx)


def setter(field, f=lambda x: x, tags=('C14',)):
    return lambda cx: [('value set', getattr(cx.new, field) == f(cx.oarg(0)), list(tags)), ('returns the object', BoolVal(isinstance(cx.r, Lv) and cx.r.same(cx.this)), list(tags))]


def getter(*path, tags=('C14',)):
    def g(cx):
        v = cx.new
        for p in path:
            v = getattr(v, p)
        v = v.n if isinstance(v, VVec) else card(v.dom) if isinstance(v, VMap) else v
        return [('returns the value', cx.res == v, list(tags))]
    return g


def ctor_post(cx):
    o = cx.new
    return [('nothing was received', And(o.m_nb_received_repairs == 0, o.m_nb_received_sources == 0, o.m_nb_sent_ack == 0, o.m_ack.m_nb_packets == 0), ['C14']),
            ('the ack is empty', card(o.m_ack.m_source_ids.a) == 0, ['C14']), ('threshold', And(o.m_ack_nb_packets >= 1, o.m_ack_nb_packets <= 128), ['C14'])]


E_SET = [('set_rate', 'm_rate', ['C12', 'C13']), ('set_window_size', 'm_window_size', ['C11']), ('set_adaptive', 'm_adaptive', ['C13']), ('set_code_type', 'm_code_type', ['C12'])]
E_GET = [('rate', ('m_rate',), ['C13', 'C12']), ('window_size', ('m_window_size',), ['C11']), ('window', ('m_sources', 'm_sources'), ['C11']), ('nb_sent_repairs', ('m_nb_sent_repairs',), ['C12']),
         ('nb_sent_sources', ('m_nb_sent_sources',), ['C12']), ('nb_received_acks', ('m_nb_acks',), ['C12']), ('adaptive', ('m_adaptive',), ['C13']), ('code_type', ('m_code_type',), ['C12'])]
BB = 'std::vector<char, boost::alignment::aligned_allocator_adaptor<ntc::detail::default_init_allocator<char, std::allocator<char>>, 16>>'


def accessors():
    out = []
    for nm, f, tags in E_SET:
        out.append(Contract(NE + '::' + nm, cls=en.CL, ensures=setter(f, tags=tags), modifies=lambda cx, f=f: [cx.this.f(f)], result=lambda cx: cx.this))
    for nm, p, tags in E_GET:
        out.append(Contract(NE + '::' + nm, cls=en.CL, ensures=getter(*p, tags=tags)))
    out.append(Contract(ND + '::set_ack_nb_packets', cls=CL, ensures=setter('m_ack_nb_packets', lambda x: If(x < 128, x, IntVal(128))), modifies=lambda cx: [cx.this.f('m_ack_nb_packets')], result=lambda cx: cx.this))
    out.append(Contract(ND + '::set_ack_period', cls=CL, ensures=setter('m_ack_period'), modifies=lambda cx: [cx.this.f('m_ack_period')], result=lambda cx: cx.this))
    for nm, p in (('ack_nb_packets', ('m_ack_nb_packets',)), ('ack_period', ('m_ack_period',)), ('nb_sent_acks', ('m_nb_sent_ack',))):
        out.append(Contract(ND + '::' + nm, cls=CL, ensures=getter(*p)))
    return out


def contracts():
    tc = Contract('ntc::detail::get_packet_type', requires=valid, ensures=type_post, throws={PTE: type_throw})
    inner = [Contract(DD + '::operator()(%s)' % t, requires=inner_req, modifies=inner_mods, ensures=inner_post, trusted=True) for t in ('ntc::detail::decoder_source', 'ntc::detail::decoder_repair')]
    return en.contracts() + accessors() + inner + [tc,
        Contract(NE + '::operator()(%s)' % BB, cls=en.CL, setup=wire.ghosts, requires=en.commit_req, ensures=en.commit_post, modifies=en.commit_mods, pool=en.pool),
        Contract(NE + '::operator()(ntc::packet)', cls=en.CL, setup=wire.ghosts, requires=en.notify_req, lemmas=en.notify_lemmas, ensures=en.notify_post, throws={PTE: en.not_ack, OVF: en.notify_short}, modifies=en.notify_mods, pool=en.pool),
        Contract(ND + '::generate_ack', cls=CL, setup=wire.ghosts, requires=ack_req, ensures=ack_post, modifies=ack_mods, pool=ack_pool),
        Contract(ND + '::maybe_ack', cls=CL, setup=wire.ghosts, requires=ack_req, ensures=maybe_post, modifies=maybe_mods, pool=ack_pool),
        Contract(ND + '::handle_source', cls=CL, setup=handed_setup, requires=handle_req, ensures=handle_post, modifies=lambda cx: maybe_mods(cx) + [Lv('$handed')], pool=ack_pool),
        Contract(ND + '::operator()(ntc::packet)', cls=CL, setup=dec_setup, requires=recv_req, lemmas=recv_lemmas, ensures=recv_post, throws={PTE: recv_type, OVF: recv_short}, modifies=recv_mods, pool=ack_pool),
        Contract(ND + '::ctor(unsigned char,ntc::in_order,ccv_packet_handler,ccv_data_handler)', cls=CL, setup=wire.ghosts, ensures=ctor_post, throws={'std::runtime_error': lambda cx: []}),
        Contract('ntc::dispatch', setup=disp_setup, requires=disp_req, ensures=disp_post, throws={PTE: disp_type, OVF: lambda cx: disp_untouched(cx)}, modifies=lambda cx: [cx.args[0], cx.args[1]] + wmods(cx) + [Lv('$handed')]),
    ]


def lemmas():
    return en.lemmas() + [l for l in ids.lemmas() if l[0] == 'cum']
