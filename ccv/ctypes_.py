"""C++ types (from canonical type strings) as the verifier sees them."""
import re
from functools import lru_cache


class Break(Exception):
    """The code left the part of the language that the verifier understands."""


def split_args(s):
    out, d, cur = [], 0, ''
    for ch in s:
        if ch in '<(':
            d += 1
        elif ch in '>)':
            d -= 1
        if ch == ',' and d == 0:
            out.append(cur.strip()); cur = ''
        else:
            cur += ch
    if cur.strip():
        out.append(cur.strip())
    return out


def targs(s):
    i = s.index('<')
    d = 0
    for j in range(i, len(s)):
        if s[j] in '<':
            d += 1
        elif s[j] == '>':
            d -= 1
            if d == 0:
                return split_args(s[i + 1:j])
    raise Break('type ' + s)


class Ty:
    __slots__ = ('k', 'w', 'sg', 'name', 'el', 'fields', 'flag')

    def __init__(self, k, **kw):
        self.k = k
        for a in ('w', 'sg', 'name', 'el', 'fields', 'flag'):
            setattr(self, a, kw.get(a))

    def __repr__(self):
        return '%s(%s)' % (self.k, self.name or self.w or self.el or '')


INTS = {'unsigned char': (8, False), 'unsigned short': (16, False), 'unsigned int': (32, False), 'unsigned long': (64, False),
        'unsigned long long': (64, False), 'char': (8, False), 'signed char': (8, True), 'short': (16, True), 'int': (32, True),
        'long': (64, True), 'long long': (64, True)}
# 'char' is treated as a byte 0..255: the code never does arithmetic on plain char values.


class Types:
    def __init__(self, d):
        self.records = d['records']
        self.enums = d.get('enums', {})
        self._c = {}

    def strip(self, s):
        s = s.strip()
        while True:
            o = s
            s = re.sub(r'\s*&{1,2}$', '', s).strip()
            if s.startswith('const ') and not s.endswith('*'):
                s = s[6:].strip()
            if s.endswith(' const') and not s.endswith(')const'):
                s = s[:-6].strip()
            s = re.sub(r'\*const$', '*', s)
            if s == o:
                return s

    def isref(self, s):
        return s.rstrip().endswith('&')

    def get(self, s):
        if s in self._c:
            return self._c[s]
        r = self._c[s] = self._get(self.strip(s))
        return r

    def _get(self, s):
        if s in INTS:
            w, sg = INTS[s]
            return Ty('int', w=w, sg=sg, name=s)
        if s == 'bool':
            return Ty('bool', name=s)
        if s in ('double', 'float'):
            return Ty('real', name=s)
        if s == 'void':
            return Ty('void', name=s)
        if s in self.enums:
            t = self.get(self.enums[s])
            return Ty('int', w=t.w, sg=t.sg, name=s)
        if s.endswith('*'):
            return Ty('ptr', el=s[:-1].strip(), name=s)
        if '(*)' in s:
            return Ty('fnptr', name=s)
        if s.startswith('std::vector<'):
            a = targs(s)
            return Ty('vec', el=a[0], name=s, flag='default_init' if 'default_init_allocator' in s else '')
        if s.startswith('std::list<'):
            return Ty('list', el=targs(s)[0], name=s)
        if s.startswith('boost::container::flat_set<') or (s.startswith('boost::container::dtl::flat_tree<')):
            return Ty('set', el=targs(s)[0], name=s)
        if s.startswith('std::set<'):
            return Ty('set', el=targs(s)[0], name=s)
        if s.startswith('boost::container::map<') or s.startswith('std::map<') or s.startswith('boost::container::flat_map<'):
            a = targs(s)
            return Ty('map', el=a[1], name=s)
        if s.startswith('boost::container::dtl::tree<'):
            p = targs(s)[0]
            return Ty('map', el=targs(p)[1], name=s)
        if s.startswith('boost::optional<') or s.startswith('std::optional<'):
            return Ty('opt', el=targs(s)[0], name=s)
        if s.startswith('std::pair<') or s.startswith('boost::container::dtl::pair<'):
            a = targs(s)
            return Ty('struct', name=s, fields=[('first', a[0]), ('second', a[1])])
        if s.startswith('std::function<'):
            return Ty('func', name=s)
        if s.startswith('std::chrono::'):
            return Ty('int', w=64, sg=True, name=s)
        if s.startswith('std::initializer_list<'):
            return Ty('ilist', el=targs(s)[0], name=s)
        if 'iterator' in s.split('<')[0]:
            return Ty('iter', name=s)
        if s.startswith('(lambda'):
            return Ty('closure', name=s)
        if s in self.records:
            r = self.records[s]
            return Ty('struct', name=s, fields=[(f['name'], f['t']) for f in r.get('fields', [])])
        m = re.match(r'^(.*)\[(\d+)\]$', s)
        if m:
            return Ty('carray', el=m.group(1).strip(), w=int(m.group(2)), name=s)
        return Ty('opaque', name=s)
