"""packetizer: the wire format (C06, C07, C08)."""
from z3 import *
from ..theory import *
from ..values import *
from ..ctypes_ import Ty, Break
from ..verify import Contract, Cx, use
from .. import lib
from . import packet as pk

PZ = 'ntc::detail::packetizer'
H = 'ccv_packet_handler'
HC = ['ntc::detail::packetizer<ccv_packet_handler>']
OVF = 'ntc::overflow_error'


# ---------- ghost wire -----------------------------------------------------------------------------------
def wire(st):
    return st.store['$wire']


def init_wire(E, st):
    if '$wire' not in st.store:
        n = fint('wire.n')
        st.assume(n >= 0, n < 2 ** 40)
        st.store['$wire'] = VVec(Ty('vec', el='unsigned char', name='$wire'), n, {'': fconst('wire', BytesS)})
        st.store['$ends'] = fint('ends')
        E.roottypes['$ends'] = None


def emit(E, st, src, n, loc):
    init_wire(E, st)
    w = wire(st)
    if isinstance(src, VPtr) and src.size is not None:
        k = simplify(n)
        if not is_int_value(k) or k.as_long() > src.size:
            raise Break('emission of part of a scalar')
        bs = lib.raw_bytes(E, st, E.read(st, src.lv), src.size)
        a = w.comps['']
        for i in range(k.as_long()):
            a = Store(a, w.n + i, bs[i])
        E.write(st, Lv('$wire'), VVec(w.ty, w.n + k.as_long(), {'': a}))
        return
    lv, v, off = lib.rng(E, st, src)
    E.oblige(st, And(off >= 0, n >= 0, off + n <= v.n), 'the bytes given to the packet handler exist', loc)
    a = lib.copied(E, st, w.comps[''], w.n, v.comps[''], off, n, 'wire')
    E.write(st, Lv('$wire'), VVec(w.ty, w.n + n, {'': a}))


def handler(E, st, f, obj, args, n):
    if args:
        emit(E, st, E.val(st, args[0]), E.val(st, args[1]), n['loc'])
    else:
        init_wire(E, st)
        E.write(st, Lv('$ends'), st.store['$ends'] + 1)
    yield st, VOID


def prepare(E):
    E.hooks[H + '::operator()'] = handler


# ---------- format ---------------------------------------------------------------------------------------
def be(a, off, n):
    s = IntVal(0)
    for i in range(n):
        s = s + a[off + i] * 256 ** (n - 1 - i)
    return s


def bytes_ok(a, off, n):
    return And([And(a[off + i] >= 0, a[off + i] < 256) for i in range(n)])


def prefix_kept(a, b, n):
    i = Int('i')
    return ForAll([i], Implies(And(i >= 0, i < n), a[i] == b[i]), patterns=[a[i]])


def ghosts(cx):
    init_wire(cx.E, cx.st)


def setup_pkt(cx):
    ghosts(cx)


def written(cx):
    """Wire before and after: (array before, length before, array after, length after)."""
    w0, w1 = cx.pre.store['$wire'], cx.st.store['$wire']
    return w0.comps[''], w0.n, w1.comps[''], w1.n


def wmods(cx):
    return [Lv('$wire'), Lv('$ends')]


def common(cx, a0, n0, a1):
    return [('one packet is ended', cx.st.store['$ends'] == cx.pre.store['$ends'] + 1),
            ('earlier bytes are kept', prefix_kept(a1, a0, n0))]


def source_format(a, o, id_, n, sym):
    i = Int('i')
    return [('type byte', a[o] == 2), ('identifier', And(be(a, o + 1, 4) == id_, bytes_ok(a, o + 1, 4))),
            ('size', And(be(a, o + 5, 2) == n, bytes_ok(a, o + 5, 2))),
            ('symbol', ForAll([i], Implies(And(i >= o + 7, i < o + 7 + n), a[i] == sym[i - o - 7]), patterns=[a[i]]))]


def write_source_post(cx):
    a0, n0, a1, n1 = written(cx)
    s = cx.oarg(0)
    n = s.m_symbol_buffer.n
    return common(cx, a0, n0, a1) + [('length', n1 == n0 + 7 + n)] + source_format(a1, n0, s.m_id, n, s.m_symbol_buffer.comps[''])


def pbytes(cx, i=0):
    p = cx.oarg(i)
    return p.m_buffer.comps[''], p.m_buffer.n - pk.OFF


def read_source_post(cx):
    a, n = pbytes(cx)
    r = cx.res
    o = pk.OFF
    sz = be(a, o + 5, 2)
    p = cx.oarg(0).m_buffer
    return [('long enough', n >= 7 + sz), ('identifier', r.first.m_id == be(a, o + 1, 4)),
            ('symbol size', r.first.m_symbol_size == sz),
            ('the symbol is the one in the packet', And(r.first.m_symbol_buffer.m_buffer.comps[''] == p.comps[''], r.first.m_symbol_buffer.m_buffer.n == p.n)),
            ('read bytes', r.second == 7 + sz)]


def read_source_throw(cx):
    a, n = pbytes(cx)
    return [('only if too short', Or(n < 7, n < 7 + be(a, pk.OFF + 5, 2)))]


def pvalid(cx):
    return [('valid packet', And(pk.inv(cx.arg(0)), pk.size(cx.arg(0)) >= 1))]


def ptype(t):
    return lambda cx: pvalid(cx) + [('type', pk.byte(cx.arg(0), IntVal(0)) == t)]


def contracts():
    return [
        Contract(PZ + '::write_source', cls=HC, setup=ghosts, requires=lambda cx: [('size fits 16 bits', cx.arg(0).m_symbol_buffer.n < 65536)],
                 ensures=write_source_post, modifies=wmods),
        Contract(PZ + '::read_source', cls=HC, requires=ptype(2), ensures=read_source_post, throws={OVF: read_source_throw}),
    ]
