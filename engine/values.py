"""Abstract values. Everything is immutable and hashable.

A symbol is an interned term: a tuple (tag, component...) whose components are values or plain atoms."""

_ids = {}
KEYS = []
BASE = []  # per key: frozenset of base keys (keys without value components) it is built from


def K(*key):
    i = _ids.get(key)
    if i is None:
        i = _ids[key] = len(KEYS)
        KEYS.append(key)
        b = set()
        for c in key:
            b |= bases(c)
        BASE.append(frozenset(b) if b else frozenset((i,)))
    return i


_fresh = [0]


def fresh(tag='x'):
    _fresh[0] += 1
    return K('fresh', tag, _fresh[0])


def bases(v):
    """base symbols a value mentions"""
    if isinstance(v, Sym):
        return BASE[v.k]
    if isinstance(v, Lin):
        r = set()
        for k, _ in v.t:
            r |= BASE[k]
        return r
    if isinstance(v, Agg):
        r = set()
        for x in v.f:
            r |= bases(x)
        return r
    if isinstance(v, VecV):
        r = set()
        for c in v.ch:
            if c[0] == 'e':
                r |= bases(c[1])
            else:
                r |= BASE[c[1]]
                r |= bases(c[2])
                r |= bases(c[3])
        for i, x in v.w:
            r |= bases(i)
            r |= bases(x)
        return r
    if isinstance(v, Ref):
        r = set()
        for p in v.path:
            for c in p:
                r |= bases(c)
        if isinstance(v.cell, tuple):
            for c in v.cell:
                r |= bases(c)
        return r
    if isinstance(v, tuple):
        r = set()
        for c in v:
            r |= bases(c)
        return r
    return frozenset()


def kstr(k, depth=0):
    key = KEYS[k]
    if depth > 8:
        return '..'
    t = key[0]
    if t in ('in', 'name'):
        return str(key[1])
    if t == 'fld':
        return '%r.%s' % (key[1], key[3])
    if t == 'fresh':
        return '%s#%d' % (key[1], key[2])
    if t == 'el':
        return '%s[%r]' % (kstr(key[1].k, depth + 1), key[2])
    if t == 'len':
        return 'len(%r)' % (key[1],)
    if t == 'deref':
        return '*%r' % (key[1],)
    return '%s(%s)' % (t, ', '.join(str(x) if isinstance(x, str) else repr(x) for x in key[1:]))


class Lin(object):
    """linear integer expression c + sum coef*symbol"""
    __slots__ = ('t', 'c', 'h')

    def __init__(self, c=0, t=()):
        self.c = c
        self.t = t
        self.h = hash((c, t))

    @staticmethod
    def sym(k):
        return Lin(0, ((k, 1),))

    def __hash__(self):
        return self.h

    def __eq__(self, o):
        return isinstance(o, Lin) and self.h == o.h and self.c == o.c and self.t == o.t

    def __ne__(self, o):
        return not self == o

    def const(self):
        return self.c if not self.t else None

    def __add__(self, o):
        if isinstance(o, int):
            return Lin(self.c + o, self.t)
        if not self.t:
            return Lin(self.c + o.c, o.t)
        if not o.t:
            return Lin(self.c + o.c, self.t)
        d = dict(self.t)
        for k, v in o.t:
            n = d.get(k, 0) + v
            if n:
                d[k] = n
            else:
                d.pop(k, None)
        return Lin(self.c + o.c, tuple(sorted(d.items())))

    def mul(self, n):
        if n == 0:
            return Lin(0)
        return Lin(self.c * n, tuple((k, v * n) for k, v in self.t))

    def __neg__(self):
        return self.mul(-1)

    def __sub__(self, o):
        if isinstance(o, int):
            return Lin(self.c - o, self.t)
        return self + o.mul(-1)

    def syms(self):
        return [k for k, _ in self.t]

    def __repr__(self):
        s = ''
        for k, v in self.t:
            s += ('+' if v > 0 else '-') + ('' if abs(v) == 1 else str(abs(v)) + '*') + kstr(k)
        if self.c or not s:
            s += '%+d' % self.c
        return s.lstrip('+')


ZERO = Lin(0)
ONE = Lin(1)


class Sym(object):
    """a value about which only its identity (and lazily its parts) is known"""
    __slots__ = ('k', 'ty')

    def __init__(self, k, ty):
        self.k = k
        self.ty = ty

    def __hash__(self):
        return hash(('S', self.k))

    def __eq__(self, o):
        return isinstance(o, Sym) and self.k == o.k

    def __ne__(self, o):
        return not self == o

    def __repr__(self):
        return kstr(self.k)


class Agg(object):
    __slots__ = ('ty', 'v', 'f', 'h')

    def __init__(self, ty, v, f):
        self.ty = ty
        self.v = v
        self.f = tuple(f)
        self.h = hash((v, self.f))

    def __hash__(self):
        return self.h

    def __eq__(self, o):
        return isinstance(o, Agg) and self.h == o.h and self.v == o.v and self.f == o.f

    def __ne__(self, o):
        return not self == o

    def __repr__(self):
        return '{%s%s}' % ('#%s ' % (self.v,) if self.v else '', ', '.join(map(repr, self.f)))

    def with_field(self, i, x):
        return Agg(self.ty, self.v, self.f[:i] + (x,) + self.f[i + 1:])


class Ref(object):
    __slots__ = ('cell', 'path', 'h')

    def __init__(self, cell, path=()):
        self.cell = cell
        self.path = path
        self.h = hash(('R', cell, path))

    def __hash__(self):
        return self.h

    def __eq__(self, o):
        return isinstance(o, Ref) and self.h == o.h and self.cell == o.cell and self.path == o.path

    def __ne__(self, o):
        return not self == o

    def __repr__(self):
        return '&%s%s' % (self.cell if not isinstance(self.cell, tuple) else '<%s>' % ' '.join(map(str, self.cell)), list(self.path) if self.path else '')


class FnV(object):
    __slots__ = ('inst', 'ty')

    def __init__(self, inst, ty):
        self.inst = inst
        self.ty = ty

    def __hash__(self):
        return hash(('F', self.inst))

    def __eq__(self, o):
        return isinstance(o, FnV) and o.inst == self.inst

    def __ne__(self, o):
        return not self == o

    def __repr__(self):
        return 'fn#%d' % self.inst


class _U(object):
    def __repr__(self):
        return 'undef'


UNDEF = _U()


class VecV(object):
    """an ordered container (Vec, SmallVec, slice contents, or a container known only by contract).

    chunks: ('e', value) one element | ('s', key, offset, length, elem_ty) a run of unknown elements of the sequence
    `key`, its i-th element being the symbol el(key, offset+i). w: ((index, value), ...), latest last, override."""
    __slots__ = ('ty', 'ch', 'w', 'tag', 'h')

    def __init__(self, ty, ch=(), w=(), tag=None):
        self.ty = ty
        self.ch = tuple(ch)
        self.w = tuple(w)
        self.tag = tag
        self.h = hash(('V', self.ch, self.w))

    def __hash__(self):
        return self.h

    def __eq__(self, o):
        return isinstance(o, VecV) and self.h == o.h and self.ch == o.ch and self.w == o.w

    def __ne__(self, o):
        return not self == o

    def length(self):
        n = Lin(0)
        for c in self.ch:
            n = n + (1 if c[0] == 'e' else c[3])
        return n

    def __repr__(self):
        s = []
        for c in self.ch:
            if c[0] == 'e':
                s.append(repr(c[1]))
            else:
                s.append('%s[%r..+%r]' % (kstr(c[1]), c[2], c[3]))
        return '<%s%s>' % (', '.join(s), ' w%r' % (self.w,) if self.w else '')


# ------------------------------------------------------------------ linear facts
def _norm(l):
    """normalise constraint l <= 0 over the integers"""
    from math import gcd
    g = 0
    for _, v in l.t:
        g = gcd(g, abs(v))
    if g > 1:
        return Lin(-((-l.c) // g), tuple((k, v // g) for k, v in l.t))
    return l


_inf_cache = {}


def infeasible(cons, limit=300):
    key = frozenset(cons)
    r = _inf_cache.get(key)
    if r is None:
        r = _inf_cache[key] = _infeasible(key, limit)
    return r


def _infeasible(cons, limit):
    """Is the conjunction of (l <= 0) contradictory over the non-negative integers? (projection of the polyhedron with
    integer tightening; may answer False when unsure)"""
    cur = set()
    vars_ = set()
    for l in cons:
        l = _norm(l)
        if not l.t:
            if l.c > 0:
                return True
            continue
        cur.add(l)
        vars_.update(l.syms())
    for k in vars_:
        cur.add(Lin(0, ((k, -1),)))
    while vars_:
        cnt = {}
        for l in cur:
            for kk, v in l.t:
                p = cnt.setdefault(kk, [0, 0])
                p[0 if v > 0 else 1] += 1
        best = None
        for k in sorted(vars_):
            p, n = cnt.get(k, (0, 0))
            cost = p * n - p - n
            if best is None or cost < best[0]:
                best = (cost, k)
        k = best[1]
        vars_.discard(k)
        pos, neg, rest = [], [], set()
        for l in cur:
            v = 0
            for kk, vv in l.t:
                if kk == k:
                    v = vv
            if v > 0:
                pos.append((v, l))
            elif v < 0:
                neg.append((-v, l))
            else:
                rest.add(l)
        for a, l in pos:
            for b, m in neg:
                r = _norm(l.mul(b) + m.mul(a))
                if not r.t:
                    if r.c > 0:
                        return True
                else:
                    rest.add(r)
        if len(rest) > limit:
            return False
        cur = rest
    return False


def relevant(cons, syms):
    """the constraints connected to the symbols"""
    seen = set(syms)
    out = []
    todo = list(cons)
    changed = True
    while changed:
        changed = False
        rest = []
        for c in todo:
            ks = c.syms()
            if any(k in seen for k in ks):
                out.append(c)
                seen.update(ks)
                changed = True
            else:
                rest.append(c)
        todo = rest
    return out
