"""Sorts, uninterpreted functions and their (trusted) axioms.

Every axiom below is a definitional fact about finite ordered sets, finite sums or fields; they are
listed in TRUSTED, which the evidence reports."""
import itertools
from z3 import *

# z3py frees the terms of a pattern that occur nowhere else: keep them
import z3 as _z3
_kept = []
_mp = _z3.z3.MultiPattern


def MultiPattern(*a):
    _kept.extend(a)
    m = _mp(*a)
    _kept.append(m)
    return m


_fa = _z3.z3.ForAll


def ForAll(vs, body, patterns=[], **k):
    try:
        return _fa(vs, body, patterns=patterns, **k)
    except Z3Exception:
        return _fa(vs, body, **k)       # a pattern contains a connective: left to the solver


_z3.z3.ForAll = ForAll
_z3.ForAll = ForAll
_z3.z3.MultiPattern = MultiPattern
_z3.MultiPattern = MultiPattern

I = IntSort()
B = BoolSort()
G = BitVecSort(32)            # a field element / a cell of a symbol; xor is exact bit-vector xor
SetS = ArraySort(I, B)
BytesS = ArraySort(I, I)

_n = itertools.count()


def fresh_name(p):
    return '%s!%d' % (p, next(_n))


def fint(p='i'):
    return Int(fresh_name(p))


ARRAYS = set()   # names of the constants that are contents of arrays


def fconst(p, sort):
    nm = fresh_name(p)
    if sort == BytesS:
        ARRAYS.add(nm)
    return Const(nm, sort)


# --- ordered finite sets ------------------------------------------------------------------------
card = Function('card', SetS, I)
at = Function('at', SetS, I, I)        # i-th smallest element
rank = Function('rank', SetS, I, I)    # number of smaller elements
mn = Function('mn', SetS, I)
mx = Function('mx', SetS, I)
sdiff = Function('sdiff', SetS, SetS, I)  # a witness of non-inclusion
EMPTY = K(I, BoolVal(False))


def set_facts(A, order=False):
    """Facts true of every finite set of integers."""
    x, i, j = Ints('x i j')
    f = [card(A) >= 0, card(A) < 2 ** 32,
         ForAll([x], Implies(A[x], And(card(A) >= 1, mn(A) <= x, x <= mx(A))), patterns=[A[x]]),
         Implies(card(A) >= 1, And(A[mn(A)], A[mx(A)])),
         Implies(card(A) == 1, mn(A) == mx(A)),
         Implies(card(A) >= 2, mn(A) < mx(A))]
    if order:
        f += [ForAll([x], Implies(A[x], And(0 <= rank(A, x), rank(A, x) < card(A), at(A, rank(A, x)) == x)), patterns=[rank(A, x)]),
              ForAll([i], Implies(And(0 <= i, i < card(A)), And(A[at(A, i)], rank(A, at(A, i)) == i)), patterns=[at(A, i)]),
              ForAll([i, j], Implies(And(0 <= i, i < j, j < card(A)), at(A, i) < at(A, j)), patterns=[MultiPattern(at(A, i), at(A, j))]),
              ForAll([x, i], Implies(And(A[x], A[i], x < i), rank(A, x) < rank(A, i)), patterns=[MultiPattern(rank(A, x), rank(A, i))]),
              Implies(card(A) >= 1, And(at(A, 0) == mn(A), at(A, card(A) - 1) == mx(A), rank(A, mn(A)) == 0))]
    return f


fin = Function('fin', SetS, B)           # the set is finite (true of every value of a container)


def fin_axioms():
    """Facts about all finite sets; the same as set_facts, quantified."""
    A, x = Const('A', SetS), Int('x')
    St_ = Store(A, x, BoolVal(False))
    Sn = Store(A, x, BoolVal(True))
    return [fin(EMPTY), card(EMPTY) == 0,
            ForAll([A, x], Implies(And(fin(A), A[x]), And(card(A) >= 1, mn(A) <= x, x <= mx(A), Implies(card(A) == 1, x == mn(A)))), patterns=[MultiPattern(fin(A), A[x])]),
            ForAll([A], Implies(fin(A), And(card(A) >= 0, card(A) < 2 ** 32)), patterns=[fin(A)]),
            ForAll([A], Implies(And(fin(A), card(A) >= 1), A[mn(A)]), patterns=[mn(A)]),
            ForAll([A, x], Implies(fin(A), And(fin(St_), card(St_) == If(A[x], card(A) - 1, card(A)))), patterns=[St_]),
            ForAll([A, x], Implies(fin(A), And(fin(Sn), card(Sn) == If(A[x], card(A), card(A) + 1))), patterns=[Sn])]


def store_facts(A, x, v, order=False):
    """Facts about Store(A, x, v)."""
    Bn = Store(A, x, BoolVal(v))
    if v:
        f = [card(Bn) == If(A[x], card(A), card(A) + 1)]
    else:
        f = [card(Bn) == If(A[x], card(A) - 1, card(A))]
    f += set_facts(Bn, order)
    if order:
        i = Int('i')
        if not v:
            p = rank(A, x)
            f += [Implies(A[x], And(0 <= p, p < card(A), at(A, p) == x)),
                  ForAll([i], Implies(And(A[x], 0 <= i, i < card(A) - 1), at(Bn, i) == If(i < p, at(A, i), at(A, i + 1))), patterns=[at(Bn, i)]),
                  ForAll([i], Implies(And(A[x], A[i], i != x), rank(Bn, i) == If(i < x, rank(A, i), rank(A, i) - 1)), patterns=[rank(Bn, i)])]
        else:
            p = rank(Bn, x)
            f += [0 <= p, p < card(Bn), at(Bn, p) == x,
                  ForAll([i], Implies(And(Not(A[x]), 0 <= i, i < card(Bn)), at(Bn, i) == If(i < p, at(A, i), If(i == p, x, at(A, i - 1)))), patterns=[at(Bn, i)]),
                  ForAll([i], Implies(And(Not(A[x]), 0 <= i, i < card(A)), at(A, i) == If(i < p, at(Bn, i), at(Bn, i + 1))), patterns=[at(A, i)])]
    return Bn, f


def empty_facts(A=EMPTY):
    return [card(A) == 0]


def subset_lemma(A, Bs):
    """A included in B  =>  |A| <= |B|; same size => same set."""
    d = sdiff(A, Bs)
    return Or(And(A[d], Not(Bs[d])), card(A) <= card(Bs))


# --- sums of sequences -------------------------------------------------------------------------------
cum = Function('cum', BytesS, I, I)      # 1 + sum of the first k elements
grp = Function('grp', BytesS, I, I, I)   # grp(F, K, j): the k < K with cum(k) <= j < cum(k+1)
psum = Function('psum', BytesS, I, I)    # sum of elements 0..j modulo 2^32


def cum_def(F, k):
    return And(cum(F, 0) == 1, Implies(k >= 0, cum(F, k + 1) == cum(F, k) + F[k]))


def psum_def(D, j):
    return And(psum(D, 0) == D[0], Implies(j >= 1, psum(D, j) == (psum(D, j - 1) + D[j]) % 2 ** 32))


def seq_axioms():
    """Definitions, and consequences proved by induction in ccv/specs/ids.py (lemmas cum-store, psum-range)."""
    F, k, n, v = Const('F', BytesS), Int('k'), Int('n'), Int('v')
    return [ForAll([F, k], cum_def(F, k), patterns=[MultiPattern(F[k], cum(F, k))]),
            ForAll([F], cum(F, 0) == 1, patterns=[cum(F, 0)]),
            ForAll([F, n, v, k], Implies(And(0 <= k, k <= n), cum(Store(F, n, v), k) == cum(F, k)), patterns=[cum(Store(F, n, v), k)])]


# --- products of two variables (row offsets) --------------------------------------------------------
imul = Function('imul', I, I, I)


def imul_axioms():
    n, i, j = Ints('n i j')
    return [ForAll([n, i], And(Implies(And(n >= 0, i >= 0), imul(n, i) >= 0), Implies(i == 0, imul(n, i) == 0)), patterns=[imul(n, i)]),
            ForAll([n, i, j], And(Implies(And(n >= 0, i < j), imul(n, i) + n <= imul(n, j)), Implies(j == i + 1, imul(n, j) == imul(n, i) + n)), patterns=[MultiPattern(imul(n, i), imul(n, j))])]


trg = Function('trg', I, B)              # mentions a term in a goal, for the instantiation of quantifiers


# --- fields ---------------------------------------------------------------------------------------
toG = Function('toG', I, G)
fromG = Function('fromG', G, I)
gm = Function('gm', G, G, G)           # field multiplication
ginv = Function('ginv', G, G)
act = Function('act', G, G, G)         # scaling of a cell of a region / of a size
coef = Function('coef', I, I, I)       # spec: coefficient(repair, source), fixed field size
cell = Function('cell', BytesS, I, G)  # content at the (arbitrary, fixed) ghost word position KPOS after an offset
KPOS = Int('KPOS')                     # byte position of this word relative to the start of a symbol
WORD = Int('WORD')                     # its size in bytes
WBITS = Int('WBITS')                   # field size (m_w)
ZERO = BitVecVal(0, 32)


def ToG(x):
    if is_app(x) and x.decl().eq(fromG):
        return x.arg(0)
    if is_int_value(x) and x.as_long() == 0:
        return ZERO
    return toG(x)


def FromG(g):
    if is_app(g) and g.decl().eq(toG):
        return fromG(g)
    return fromG(g)


def field_axioms():
    a, b, v, x = Const('a', G), Const('b', G), Const('v', G), Int('x')
    one = toG(IntVal(1))
    return [
        toG(IntVal(0)) == ZERO, fromG(ZERO) == 0,
        ForAll([a], And(toG(fromG(a)) == a, fromG(a) >= 0, fromG(a) < 2 ** 32), patterns=[fromG(a)]),
        ForAll([x], Implies(And(0 <= x, x < 2 ** 32), fromG(toG(x)) == x), patterns=[toG(x)]),
        one != ZERO,
        ForAll([a, b], gm(a, b) == gm(b, a), patterns=[gm(a, b)]),
        ForAll([a], gm(a, ZERO) == ZERO, patterns=[gm(a, ZERO)]),
        ForAll([a], gm(one, a) == a, patterns=[gm(one, a)]),
        ForAll([a], Implies(a != ZERO, And(gm(ginv(a), a) == one, ginv(a) != ZERO)), patterns=[ginv(a)]),
        ForAll([a, v], Implies(a != ZERO, act(ginv(a), act(a, v)) == v), patterns=[act(ginv(a), act(a, v))]),
        ForAll([a, v], Implies(a != ZERO, act(a, act(ginv(a), v)) == v), patterns=[act(a, act(ginv(a), v))]),
        ForAll([v], act(one, v) == v, patterns=[act(one, v)]),
        ForAll([v], act(ZERO, v) == ZERO, patterns=[act(ZERO, v)]),
        ForAll([a], act(a, ZERO) == ZERO, patterns=[act(a, ZERO)]),
    ]


# --- rows of matrices times vectors -----------------------------------------------------------------
GArr = ArraySort(I, G)
dot = Function('dot', BytesS, I, GArr, I, G)     # sum for k < n of act(A[b + k], y[k])
uw = Function('uw', BytesS, I, I, I)             # a witness that a row is not a unit row


def dot_def(A, b, y, k, d=None):
    d = d or dot
    return And(d(A, b, y, 0) == ZERO, Implies(k >= 0, d(A, b, y, k + 1) == d(A, b, y, k) ^ act(toG(A[b + k]), y[k])))


def dot_store(A, p, v, b, y, k, d=None):
    d = d or dot
    return d(Store(A, p, v), b, y, k) == If(And(b <= p, p < b + k), d(A, b, y, k) ^ act(toG(A[p]), y[p - b]) ^ act(toG(v), y[p - b]), d(A, b, y, k))


def dot_vstore(A, b, y, p, v, k, d=None):
    d = d or dot
    return d(A, b, Store(y, p, v), k) == If(And(0 <= p, p < k), d(A, b, y, k) ^ act(toG(A[b + p]), y[p]) ^ act(toG(A[b + p]), v), d(A, b, y, k))


def dot_axioms():
    """The definition, and consequences proved by induction in ccv/specs/mat.py (lemmas dot-store, dot-unit)."""
    A, y, b, k, m, p, v, n, r = Const('A', BytesS), Const('y', GArr), Int('b'), Int('k'), Int('m'), Int('p'), Int('v'), Int('n'), Int('r')
    w = uw(A, n, r)
    one = toG(IntVal(1))
    return [ForAll([A, b, y, k], Implies(k == 0, dot(A, b, y, k) == ZERO), patterns=[dot(A, b, y, k)]),
            ForAll([A, b, y, k, m], Implies(And(k >= 0, m == k + 1), dot(A, b, y, m) == dot(A, b, y, k) ^ act(toG(A[b + k]), y[k])), patterns=[MultiPattern(dot(A, b, y, k), dot(A, b, y, m))]),
            ForAll([A, p, v, b, y, k], Implies(k >= 0, dot_store(A, p, v, b, y, k)), patterns=[dot(Store(A, p, v), b, y, k)]),
            ForAll([A, n, r, y], Implies(And(0 <= r, r < n), Or(And(0 <= w, w < n, A[imul(n, r) + w] != If(w == r, IntVal(1), IntVal(0))), dot(A, imul(n, r), y, n) == y[r])),
                   patterns=[dot(A, imul(n, r), y, n)])] + module_axioms()


isx = Function('isx', G, G, G, B)          # the first is the sum of the others
men = Function('men', G, B)              # true; mentions a term in a goal


def module_axioms():
    a, b, c, v = (Const(x, G) for x in ('a', 'b', 'c', 'v'))
    A, y, x, k, m = Const('A', BytesS), Const('y', GArr), Int('x'), Int('k'), Int('m')
    return [ForAll([a], men(a), patterns=[men(a)]),
            ForAll([a, b, v], act(gm(a, b), v) == act(a, act(b, v)), patterns=[act(gm(a, b), v)]),
            # distributivity, where a sum is known as such
            ForAll([a, b, c, v], Implies(isx(c, a, b), And(c == a ^ b, act(c, v) == act(a, v) ^ act(b, v))), patterns=[MultiPattern(isx(c, a, b), act(c, v))]),
            ForAll([a, A, x, y, k, m], Implies(And(k >= 0, m == k + 1), act(a, dot(A, x, y, m)) == act(a, dot(A, x, y, k)) ^ act(a, act(toG(A[x + k]), y[k]))),
                   patterns=[MultiPattern(act(a, dot(A, x, y, m)), act(a, dot(A, x, y, k)))])]


# --- what was sent (ghost truth) and the combinations of it ---------------------------------------------
S = Function('S', I, G)                # cell at KPOS of the datum sent under an identifier (0 beyond its end)
Sz = Function('Sz', I, I)              # its size
lin = Function('lin', I, SetS, G)      # sum over a set of coef * S
lsz = Function('lsz', I, SetS, G)      # the same for sizes
linb = Function('linb', I, SetS, I, G)  # the same over the members smaller than a bound
lszb = Function('lszb', I, SetS, I, G)


def term(r, x):
    return act(toG(coef(r, x)), S(x))


def termz(r, x):
    return act(toG(coef(r, x)), toG(Sz(x)))


def lin_axioms():
    r, x, y, A = Int('r'), Int('x'), Int('y'), Const('A', SetS)
    f = []
    for l, t in ((lin, term), (lsz, termz)):
        f += [ForAll([r, A], Implies(card(A) == 1, l(r, A) == t(r, mn(A))), patterns=[l(r, A)]),
              ForAll([r, A], Implies(card(A) == 0, l(r, A) == ZERO), patterns=[l(r, A)]),
              ForAll([r, A, x], Implies(A[x], l(r, A) == l(r, Store(A, x, BoolVal(False))) ^ t(r, x)), patterns=[l(r, Store(A, x, BoolVal(False)))])]
    return f


def lin_remove(r, A, x):
    """Instances for Store(A, x, False)."""
    Bn = Store(A, x, BoolVal(False))
    return [Implies(A[x], lin(r, A) == lin(r, Bn) ^ term(r, x)),
            Implies(A[x], lsz(r, A) == lsz(r, Bn) ^ termz(r, x))]


def truth_axioms():
    x, r = Int('x'), Int('r')
    return [ForAll([x], And(Sz(x) >= 0, Sz(x) < 65536, Implies(WORD == 2, Sz(x) % 2 == 0), Implies(WORD == 4, Sz(x) % 4 == 0)), patterns=[Sz(x)]),
            ForAll([x], Implies(Sz(x) <= KPOS, S(x) == ZERO), patterns=[S(x)]),
            KPOS >= 0]


TRUSTED = [
    'finite ordered sets: cardinality/min/max/i-th element/rank facts (ccv/theory.py set_facts, store_facts, subset_lemma)',
    'gf_complete implements a field: commutative multiplication with 1, 0 and inverses; multiply_region scales every word of the region (ccv/theory.py field_axioms)',
    'scaling is a module action of the field: associative, and distributive on both sides (ccv/theory.py module_axioms)',
    'finite sums over sets: singleton, empty and removal rules (ccv/theory.py lin_axioms, lin_remove)',
]
