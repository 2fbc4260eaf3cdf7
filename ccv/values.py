"""Symbolic values. All are immutable; containers are arrays indexed by key or position."""
from z3 import *
from .theory import *
from .ctypes_ import Break


class Lv:
    """An lvalue: a root object and a path into it."""
    __slots__ = ('root', 'path')

    def __init__(self, root, path=()):
        self.root = root
        self.path = tuple(path)

    def f(self, name):
        return Lv(self.root, self.path + (('f', name),))

    def add(self, *el):
        return Lv(self.root, self.path + (tuple(el),))

    def __repr__(self):
        return self.root + ''.join('.%s' % (e[1],) if e[0] == 'f' else '[%s]' % (e[1:],) for e in self.path)

    def same(self, o):
        if not isinstance(o, Lv) or self.root != o.root or len(self.path) != len(o.path):
            return False
        for a, b in zip(self.path, o.path):
            if a[0] != b[0] or len(a) != len(b):
                return False
            for x, y in zip(a[1:], b[1:]):
                if isinstance(x, ExprRef) and isinstance(y, ExprRef):
                    if not x.eq(y):
                        return False
                elif x != y:
                    return False
        return True


class V:
    pass


class VStruct(V):
    def __init__(self, ty, fields):
        self.ty = ty
        self.fields = fields

    def set(self, f, v):
        d = dict(self.fields)
        d[f] = v
        return VStruct(self.ty, d)

    def __repr__(self):
        return '%s%r' % (self.ty.name.split('<')[0], self.fields)


class VVec(V):
    """vector / list / C array: length and one array per leaf of the element type."""
    def __init__(self, ty, n, comps):
        self.ty, self.n, self.comps = ty, n, comps

    def __repr__(self):
        return 'vec(%s)' % self.n


class VSet(V):
    def __init__(self, ty, a):
        self.ty, self.a = ty, a


class VMap(V):
    def __init__(self, ty, dom, comps):
        self.ty, self.dom, self.comps = ty, dom, comps


class VOpt(V):
    def __init__(self, ty, has, v):
        self.ty, self.has, self.v = ty, has, v


class VPtr(V):
    """Pointer: to the object `lv` (off None) or to position `off` of the sequence `lv`.
    size: when not None, a byte view of a scalar of that many bytes."""
    def __init__(self, lv, off=None, null=None, size=None):
        self.lv, self.off, self.size = lv, off, size
        self.null = null if null is not None else BoolVal(lv is None)

    def __repr__(self):
        return 'ptr(%r,%s)' % (self.lv, self.off)


class VIter(V):
    """kind 'map': (key, end); kind 'seq' (vector, list, flat_set): position."""
    def __init__(self, kind, lv, pos=None, end=None, rev=False):
        self.kind, self.lv, self.pos, self.end, self.rev = kind, lv, pos, end, rev

    def __repr__(self):
        return 'iter(%s,%r,%s,%s)' % (self.kind, self.lv, self.pos, self.end)


class VClosure(V):
    def __init__(self, node, env, this):
        self.node, self.env, self.this = node, env, this


class VFn(V):
    def __init__(self, fn):
        self.fn = fn


class VOpaque(V):
    def __init__(self, name, data=None):
        self.name, self.data = name, data

    def __repr__(self):
        return 'opaque(%s)' % self.name


class VIList(V):
    def __init__(self, elems):
        self.elems = elems


class VBE(V):
    """The big-endian image (native_to_big) of an integer of `size` bytes."""
    def __init__(self, v, size):
        self.v, self.size = v, size


class VRaw(V):
    """A scalar known by its bytes in memory."""
    def __init__(self, bytes_, sg=False):
        self.bytes, self.sg = bytes_, sg


class Throw:
    def __init__(self, ty, val=None):
        self.ty, self.val = ty, val

    def __repr__(self):
        return 'throw(%s)' % self.ty


VOID = VOpaque('void')
