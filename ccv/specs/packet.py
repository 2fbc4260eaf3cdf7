"""packet: a faithful container of bytes with an aligned symbol (C16)."""
from z3 import *
from ..theory import *
from ..values import *
from ..ctypes_ import Ty
from ..verify import Contract

P = 'ntc::packet'
OFF = 9          # byte 0 of a packet lies 9 bytes after a 16-byte boundary, so that byte 7 (the symbol) is on one
U = ['C16']


def inv(o):
    return o.m_buffer.n >= OFF


def size(o):
    return o.m_buffer.n - OFF


def byte(o, i):
    return o.m_buffer.comps[''][i + OFF]


def allbytes(cx, lo, hi, f, o=None):
    i = Int('i')
    o = o or cx.new
    b = byte(o, i)
    return ForAll([i], Implies(And(i >= lo, i < hi), b == f(i)), patterns=[b])


def ptr_is(cx, r, off):
    """r points at offset off of this packet's buffer."""
    ok = isinstance(r, (VPtr, VIter)) and r.lv is not None and r.lv.same(cx.this.f('m_buffer'))
    if not ok:
        return BoolVal(False)
    return (r.off if isinstance(r, VPtr) else r.pos) == off


def two_ptrs(cx):
    E, st = cx.E, cx.st
    n, o1, o2 = fint('mem.n'), fint('first'), fint('last')
    st.store['&mem'] = VVec(Ty('vec', el='char', name='memory'), n, {'': fconst('mem', BytesS)})
    st.assume(0 <= o1, o1 <= o2, o2 <= n, n < 2 ** 40)
    st.store[cx.args[0].root] = VPtr(Lv('&mem'), o1)
    st.store[cx.args[1].root] = VPtr(Lv('&mem'), o2)


def ilist(cx):
    """An initializer_list of arbitrary length: an array in memory."""
    E, st = cx.E, cx.st
    n = fint('init.n')
    st.assume(n >= 0, n < 2 ** 40)
    st.store[cx.args[0].root] = VVec(Ty('ilist', el='char', name='ilist'), n, {'': fconst('init', BytesS)})


def rd(cx, i):
    return cx.E.read(cx.pre, cx.args[i])


def range_post(cx):
    a, b = rd(cx, 0), rd(cx, 1)
    m = cx.pre.store['&mem'].comps['']
    return [('valid', inv(cx.new)), ('size', size(cx.new) == b.off - a.off), ('bytes', allbytes(cx, 0, b.off - a.off, lambda i: m[a.off + i]))]


def ilist_post(cx):
    v = rd(cx, 0)
    return [('valid', inv(cx.new)), ('size', size(cx.new) == v.n), ('bytes', allbytes(cx, 0, v.n, lambda i: v.comps[''][i]))]


def symbol_ctor_post(cx):
    v = rd(cx, 0)
    return [('valid', inv(cx.new)), ('size', size(cx.new) == v.n + 7), ('the symbol holds the bytes', allbytes(cx, 7, v.n + 7, lambda i: v.comps[''][i - 7]))]


def kept(cx, hi=None):
    o = cx.old
    n = size(cx.new)
    lim = If(n < size(o), n, size(o)) if hi is None else hi
    return ('untouched prefix', allbytes(cx, 0, lim, lambda i: byte(o, i)))


def buf(cx):
    return [cx.this.f('m_buffer')]


SZ = 'unsigned long'
IL = 'std::initializer_list<char>'
lim = lambda cx, i=0: [('size within memory', cx.arg(i) < 2 ** 40)]
v = lambda cx: [('valid', inv(cx.new))]


def contracts():
    C = []

    def c(name, ens, req=None, mod=None, setup=None):
        C.append(Contract(P + '::' + name, requires=req, ensures=ens, modifies=mod, setup=setup, inline=True))
    c('ctor()', lambda cx: [('valid', inv(cx.new)), ('empty', size(cx.new) == 0)])
    c('ctor(%s)' % SZ, lambda cx: [('valid', inv(cx.new)), ('size', size(cx.new) == cx.oarg(0))], req=lim)
    c('ctor(%s,char)' % SZ, lambda cx: [('valid', inv(cx.new)), ('size', size(cx.new) == cx.oarg(0)), ('bytes', allbytes(cx, 0, cx.oarg(0), lambda i: cx.oarg(1)))], req=lim)
    c('ctor(const char *,const char *)', range_post, setup=two_ptrs)
    c('ctor(%s)' % IL, ilist_post, setup=ilist)
    for t in ('std::vector<char, boost::alignment::aligned_allocator_adaptor<ntc::detail::default_init_allocator<char, std::allocator<char>>, 16>>',
              'std::vector<char, boost::alignment::aligned_allocator<char, 16>>'):
        c('ctor(%s)' % t, symbol_ctor_post, req=lambda cx: [('memory', cx.arg(0).n < 2 ** 40)])
    cp = lambda cx: [('same bytes', And(size(cx.new) == size(cx.oarg(0)), allbytes(cx, 0, size(cx.oarg(0)), lambda i: byte(cx.oarg(0), i)))), ('valid', inv(cx.new))]
    c('ctor(ntc::packet)', cp, req=lambda cx: [('valid', inv(cx.arg(0)))])
    c('operator=', cp, req=lambda cx: [('valid', And(inv(cx.arg(0)), inv(cx.new)))], mod=buf)
    vl = lambda cx: v(cx) + lim(cx)
    c('assign(%s,char)' % SZ, lambda cx: v(cx) + [('size', size(cx.new) == cx.oarg(0)), ('bytes', allbytes(cx, 0, cx.oarg(0), lambda i: cx.oarg(1)))], req=vl, mod=buf)
    c('assign(const char *,const char *)', range_post, req=v, mod=buf, setup=two_ptrs)
    c('assign(%s)' % IL, ilist_post, req=v, mod=buf, setup=ilist)
    elem = lambda cx: [('designates that byte', BoolVal(isinstance(cx.r, Lv) and len(cx.r.path) == 2 and Lv(cx.r.root, cx.r.path[:1]).same(cx.this.f('m_buffer')))),
                       ('position', cx.r.path[-1][1] == cx.oarg(0) + OFF if isinstance(cx.r, Lv) and cx.r.path else cx.r == byte(cx.old, cx.oarg(0)))]

    def elem(cx):
        if isinstance(cx.r, Lv):
            ok = len(cx.r.path) >= 1 and cx.r.path[-1][0] == 'i' and Lv(cx.r.root, cx.r.path[:-1]).same(cx.this.f('m_buffer'))
            return [('designates that byte', cx.r.path[-1][1] == cx.oarg(0) + OFF if ok else BoolVal(False))]
        return [('is that byte', cx.r == byte(cx.old, cx.oarg(0)))]
    c('operator[]', elem, req=lambda cx: v(cx) + [('index', And(cx.arg(0) >= 0, cx.arg(0) < size(cx.new)))])
    c('data', lambda cx: [('points to the first byte', ptr_is(cx, cx.r, OFF))], req=v)
    c('begin', lambda cx: [('points to the first byte', ptr_is(cx, cx.r, OFF))], req=v)
    c('cbegin', lambda cx: [('points to the first byte', ptr_is(cx, cx.r, OFF))], req=v)
    c('end', lambda cx: [('points after the last byte', ptr_is(cx, cx.r, OFF + size(cx.old)))], req=v)
    c('cend', lambda cx: [('points after the last byte', ptr_is(cx, cx.r, OFF + size(cx.old)))], req=v)
    c('symbol', lambda cx: [('points to the eighth byte', ptr_is(cx, cx.r, OFF + 7)),
                            ('on a 16-byte boundary', (cx.r.off if isinstance(cx.r, VPtr) and cx.r.off is not None else IntVal(1)) % 16 == 0)], req=v)
    c('empty', lambda cx: [('iff no byte', cx.r == (size(cx.old) == 0))], req=v)
    c('size', lambda cx: [('number of bytes', cx.r == size(cx.old))], req=v)
    same = lambda cx: v(cx) + [('size', size(cx.new) == size(cx.old)), kept(cx)]
    c('reserve', same, req=vl, mod=buf)
    c('shrink_to_fit', same, req=v, mod=buf)
    c('capacity', lambda cx: [('at least the size', cx.r >= size(cx.old))], req=v)
    c('clear', lambda cx: v(cx) + [('empty', size(cx.new) == 0)], req=v, mod=buf)
    c('push_back', lambda cx: v(cx) + [('size', size(cx.new) == size(cx.old) + 1), kept(cx, size(cx.old)), ('last byte', byte(cx.new, size(cx.old)) == cx.oarg(0))], req=v, mod=buf)
    c('resize(%s)' % SZ, lambda cx: v(cx) + [('size', size(cx.new) == cx.oarg(0)), kept(cx)], req=vl, mod=buf)
    c('resize(%s,char)' % SZ, lambda cx: v(cx) + [('size', size(cx.new) == cx.oarg(0)), kept(cx), ('new bytes', allbytes(cx, size(cx.old), cx.oarg(0), lambda i: cx.oarg(1)))], req=vl, mod=buf)
    return C
