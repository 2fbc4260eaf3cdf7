"""galois_field: the field and its coefficients (C09)."""
from z3 import *
from ..theory import *
from ..values import *
from ..ctypes_ import Ty
from ..verify import Contract
from ..lib import gfmax

GF = 'ntc::detail::galois_field'
# properties about values (the others follow the bookkeeping only, which does not depend on coefficients)
VALUES = ['C%02d' % k for k in range(1, 19) if k not in (2, 3, 4, 15)]


def valid_w(w):
    """Field sizes within the contracts (32 only where stated: sizes are truncated to 16 bits there)."""
    return Or(w == 4, w == 8, w == 16)


def any_w(w):
    return Or(w == 4, w == 8, w == 16, w == 32)


def whole(x):
    """x is a multiple of the word size."""
    return And(Implies(WORD == 2, x % 2 == 0), Implies(WORD == 4, x % 4 == 0))


def ghost_w(w):
    return [('field size', And(any_w(w), WBITS == w)),
            ('observed word', And(WORD == If(w == 16, IntVal(2), If(w == 32, IntVal(4), IntVal(1))), KPOS >= 0, whole(KPOS)))]


def inv(o):
    return [(n, f) for n, f in ghost_w(o.m_w)]


def depends_only(e, pc, allowed):
    """Only constants in `allowed` occur in the defining terms of e."""
    ok = {a.get_id() for a in allowed}
    st, seen = [e], set()
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if is_app(x) and x.num_args() == 0 and x.decl().kind() == Z3_OP_UNINTERPRETED and x.get_id() not in ok:
            return False
        st.extend(x.children())
    return True


def coefficient_post(cx):
    w, r, s = cx.old.m_w, cx.oarg(0), cx.oarg(1)
    out = [('the coefficient belongs to the field', And(cx.res >= 0, cx.res < gfmax(w))),
           ('the coefficient is not zero', cx.res != 0)]
    if cx.mode == 'verify':
        out.append(('the coefficient is a function of the field size and of the identifiers only',
                    BoolVal(depends_only(cx.res, cx.st.pc, [w, r, s]))))
    else:
        out.append(('definition', cx.res == coef(r, s)))
    return out


def region(cx):
    """Two distinct byte buffers and a length within both."""
    st = cx.st
    for k, nm in ((0, '$mem1'), (1, '$mem2')):
        n, o = fint(nm + '.n'), fint(nm + '.off')
        st.store[nm] = VVec(Ty('vec', el='char', name='memory'), n, {'': fconst(nm, BytesS)})
        st.assume(0 <= o, o <= n, n < 2 ** 31)
        st.store[cx.args[k].root] = VPtr(Lv(nm), o)
    ln = cx.E.read(st, cx.args[2])
    st.assume(*[o + ln <= st.store[nm].n for nm, o in (('$mem1', st.store[cx.args[0].root].off), ('$mem2', st.store[cx.args[1].root].off))])


def region_req(cx):
    return inv(cx.new) + [('whole words', whole(cx.arg(2))), ('coefficient in the field', And(cx.arg(3) >= 0, cx.arg(3) < gfmax(cx.new.m_w)), VALUES)]


def region_post(add):
    def f(cx):
        a, d0, d1 = (s.store[n].comps[''] for s, n in ((cx.pre, '$mem1'), (cx.pre, '$mem2'), (cx.st, '$mem2')))
        so, do = cx.E.read(cx.pre, cx.args[0]).off, cx.E.read(cx.pre, cx.args[1]).off
        ln, c = cx.oarg(2), cx.oarg(3)
        i = Int('i')
        sc = act(toG(c), cell(a, so))
        return [('every word is scaled' + (' and added' if add else ''), Implies(KPOS + WORD <= ln, cell(d1, do) == (sc ^ cell(d0, do) if add else sc))),
                ('nothing else is written', And(cx.st.store['$mem2'].n == cx.pre.store['$mem2'].n,
                                                ForAll([i], Implies(Or(i < do, i >= do + ln), d1[i] == d0[i]), patterns=[d1[i]])))]
    return f


def region_contract(name, add):
    return Contract(GF + '::' + name + '(const char *,char *,unsigned long,unsigned int)', setup=region, requires=region_req, ensures=region_post(add),
                    modifies=lambda cx: [Lv('$mem2')], inline=True)


def contracts():
    return [
        region_contract('multiply', False), region_contract('multiply_add', True),
        Contract(GF + '::coefficient', requires=lambda cx: inv(cx.new), ensures=coefficient_post),
        Contract(GF + '::invert', requires=lambda cx: inv(cx.new) + [('divisor in the field', And(cx.arg(0) > 0, cx.arg(0) < gfmax(cx.new.m_w)))],
                 ensures=lambda cx: [('inverse', cx.res == fromG(ginv(toG(cx.oarg(0))))), ('range', And(cx.res > 0, cx.res < gfmax(cx.old.m_w)))]),
        Contract(GF + '::multiply_size', requires=lambda cx: inv(cx.new) + [('coefficient in the field', And(cx.arg(1) >= 0, cx.arg(1) < gfmax(cx.new.m_w)), VALUES)],
                 ensures=lambda cx: [('scaled size', Implies(valid_w(cx.old.m_w), cx.res == fromG(act(toG(cx.oarg(1)), toG(cx.oarg(0))))))]),
        Contract(GF + '::multiply(unsigned int,unsigned int)',
                 requires=lambda cx: inv(cx.new) + [('operands in the field', And(cx.arg(0) < gfmax(cx.new.m_w), cx.arg(1) < gfmax(cx.new.m_w)))],
                 ensures=lambda cx: [('product', cx.res == fromG(gm(toG(cx.oarg(0)), toG(cx.oarg(1))))), ('range', And(cx.res >= 0, cx.res < gfmax(cx.old.m_w)))]),
    ]
