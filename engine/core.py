"""Path-partitioned abstract interpreter over the type-checked MIR.

Values are terms (values.py); ints are linear expressions, containers are sequences of chunks. Control forks on
undecided conditions (trace partitioning); at loop heads states of the same shape are joined by anti-unification and
exploration stops when the stored state subsumes the arriving one (fixpoint). Nothing of the analysed crate is run."""
import sys, time
from values import *

sys.setrecursionlimit(20000)


class Undecided(Exception):
    """the analysis met something it has no transfer function for"""


class PathEnd(Exception):
    """this abstract path cannot continue (panic, unreachable, infeasible)"""


class Split(Exception):
    def __init__(self, *alts):
        self.alts = alts


class Frame(object):
    __slots__ = ('uid', 'inst', 'body', 'bb', 'si', 'dest', 'ret', 'cont', 'env')

    def __init__(self, uid, inst, body, dest, ret, cont=None):
        self.uid, self.inst, self.body, self.bb, self.si, self.dest, self.ret, self.cont = uid, inst, body, 0, 0, dest, ret, cont

    def copy(self):
        f = Frame(self.uid, self.inst, self.body, self.dest, self.ret, self.cont)
        f.bb, f.si = self.bb, self.si
        return f


_uid = [0]


def newuid():
    _uid[0] += 1
    return _uid[0]


def narrow(c, bits, signed):
    c &= (1 << bits) - 1
    return c - (1 << bits) if signed and c >> (bits - 1) else c


class State(object):
    def __init__(self):
        self.frames = []
        self.mem = {}
        self.cons = frozenset()
        self.var = {}
        self.bl = {}
        self.od = {}
        self.ghost = {}
        self.act = {}
        self.joined = 0
        self.trace = None
        self.seq = 0

    def copy(self):
        s = State()
        s.frames = [f.copy() for f in self.frames]
        s.mem = dict(self.mem)
        s.cons = self.cons
        s.var = dict(self.var)
        s.bl = dict(self.bl)
        s.od = dict(self.od)
        s.ghost = dict(self.ghost)
        s.act = dict(self.act)
        s.joined = self.joined
        s.trace = self.trace
        s.seq = self.seq
        return s

    def note(self, text):
        self.trace = (text, self.trace)

    def trace_list(self):
        r = []
        t = self.trace
        while t is not None:
            r.append(t[0])
            t = t[1]
        return r[::-1]

    # ---------------------------------------------------------------- facts
    def assume(self, facts):
        for f in facts:
            k = f[0]
            if k == 'le':
                l = f[1]
                c = l.const()
                if c is not None:
                    if c > 0:
                        return False
                    continue
                if self.entails(l):
                    continue
                self.cons = self.cons | {l}
                if infeasible(relevant(self.cons, l.syms())):
                    return False
            elif k == 'var':
                o = self.var.get(f[1])
                if isinstance(o, int):
                    if o != f[2]:
                        return False
                elif o is not None and f[2] in o:
                    return False
                self.var[f[1]] = f[2]
            elif k == 'bool':
                o = self.bl.get(f[1])
                if o is not None and o != f[2]:
                    return False
                self.bl[f[1]] = f[2]
            elif k == 'ord':
                cur = self.rel(f[1], f[2])
                n = cur & f[3]
                if not n:
                    return False
                a, b = f[1], f[2]
                if b < a:
                    a, b, n = b, a, flip(n)
                self.od[(a, b)] = n
            else:
                raise AssertionError(f)
        return True

    def rel(self, a, b):
        """possible relations between the ordered-but-opaque values a and b: subset of '<=>u'"""
        if a == b:
            return self.od.get((a, b), frozenset('=u'))
        if b < a:
            return flip(self.od.get((b, a), frozenset('<=>u')))
        return self.od.get((a, b), frozenset('<=>u'))

    def entails(self, l):
        """l <= 0 ?"""
        c = l.const()
        if c is not None:
            return c <= 0
        if l.c <= 0 and all(v < 0 for _, v in l.t):
            return True
        if l in self.cons:
            return True
        n = Lin(1) - l
        return infeasible(relevant(self.cons, l.syms()) + [n])

    def le(self, l):
        """decide l <= 0, forking if open"""
        if self.entails(l):
            return True
        if self.entails(Lin(1) - l):
            return False
        raise Split([('le', l)], [('le', Lin(1) - l)])

    def cmp(self, a, b):
        """decide the order of two ints: -1, 0, 1"""
        d = a - b
        c = d.const()
        if c is not None:
            return (c > 0) - (c < 0)
        le, ge = self.entails(d), self.entails(-d)
        if le and ge:
            return 0
        lt, gt = self.entails(d + 1), self.entails(Lin(1) - d)
        if lt:
            return -1
        if gt:
            return 1
        alts = []
        if not lt and not gt:
            alts.append([('le', d), ('le', -d)])
        if not ge:
            alts.append([('le', d + 1)])
        if not le:
            alts.append([('le', Lin(1) - d)])
        raise Split(*alts)

    def eqint(self, a, b):
        d = a - b
        c = d.const()
        if c is not None:
            return c == 0
        return self.cmp(a, b) == 0

    def known_eq(self, a, b):
        d = a - b
        c = d.const()
        if c is not None:
            return c == 0
        return self.entails(d) and self.entails(-d)


def flip(r):
    return frozenset({'<': '>', '>': '<'}.get(x, x) for x in r)


TRUE = Lin(1)
FALSE = Lin(0)


def B(x):
    return TRUE if x else FALSE


class Interp(object):
    def __init__(self, srv, delay=0, exact=False, limit=400000, deadline=None):
        self.srv = srv
        self.delay = delay
        self.handlers = []
        self.tcache = {}
        self.bcache = {}
        self.icache = {}
        self.celltype = {}
        self.table = {}
        self.steps = 0
        self.limit = limit
        self.deadline = deadline
        self.env_inst = None
        self.violations = []
        self.undecided = []
        self.finals = 0
        self.paths = 0
        self.joins = 0
        self.functions = set()
        self.opaque_calls = {}
        self.on_drop = None
        self.on_final = None
        self.on_panic = None
        self.on_write = None
        self.on_return = None
        self.head_norm = None
        self.constcache = {}
        self.mutwidth = {}
        self.proof_failed = []
        self.pinned_keys = set()
        self.joinsyms = set()
        self.subsumed = 0
        self.exact = exact
        self.cut = 0
        from models import MODELS, INTRINSICS, PREFIX, selfkey
        self.selfkey = selfkey
        self.models = MODELS
        self.intrinsics = INTRINSICS
        self.prefix = PREFIX

    # ---------------------------------------------------------------- program
    def T(self, ty):
        t = self.tcache.get(ty)
        if t is None:
            t = self.tcache[ty] = self.srv.type(ty, self.env_inst)
            if t['k'] == 'adt':
                t['_uninh'] = None
        return t

    def inst(self, n):
        i = self.icache.get(n)
        if i is None:
            i = self.icache[n] = self.srv.inst(n)
            i['n'] = n
        return i

    def body(self, n):
        b = self.bcache.get(n)
        if b is None:
            b = self.srv.body(n)
            if b is not None:
                prepare(b)
            self.bcache[n] = b
        return b

    def uninhabited(self, ty, depth=0):
        t = self.T(ty)
        if t['k'] == 'never':
            return True
        if depth > 3:
            return False
        if t['k'] == 'adt':
            if t['kind'] == 'enum':
                return all(any(self.uninhabited(f[1], depth + 1) for f in v['fields']) for v in t['variants'])
            if t['kind'] == 'struct' and not t['phantom']:
                return any(self.uninhabited(f[1], depth + 1) for v in t['variants'] for f in v['fields'])
        if t['k'] == 'tuple':
            return any(self.uninhabited(f, depth + 1) for f in t['fields'])
        return False

    def fields(self, ty, variant=0):
        t = self.T(ty)
        if t['k'] == 'adt':
            return [f[1] for f in t['variants'][variant or 0]['fields']]
        if t['k'] in ('tuple', 'closure'):
            return t['fields']
        if t['k'] == 'array' and t['len'] is not None:
            return [t['elem']] * t['len']
        raise Undecided('fields of %s' % t['s'])

    # ---------------------------------------------------------------- values
    VECS = ('alloc::vec::Vec', 'smallvec::SmallVec')

    def mk(self, ty, key):
        t = self.T(ty)
        k = t['k']
        if k == 'uint':
            return Lin.sym(key)
        if k == 'ref' or k == 'ptr':
            return self.mkref(ty, key)
        if k == 'adt':
            raw = t['raw']
            if raw == 'alloc::vec::Vec':
                return self.mkseq(ty, key, t['args'][0])
            if raw == 'smallvec::SmallVec':
                at = self.T(t['args'][0])
                return self.mkseq(ty, key, at.get('elem'))
            if t['box']:
                return self.mkbox(ty, Ref(self.dcell(t['args'][0], key)))
            if t['phantom']:
                return Agg(ty, 0, ())
            if raw == 'core::num::nonzero::NonZero':
                return Agg(ty, 0, (Lin.sym(K('nz', Sym(key, ty))),))
            if t['kind'] == 'struct' and not t['variants'][0]['fields']:
                return Agg(ty, 0, ())
        if k == 'slice':
            return self.mkseq(ty, key, t['elem'])
        if k == 'fndef':
            return FnV(t['inst'], ty)
        if k == 'tuple' and not t['fields']:
            return Agg(ty, 0, ())
        if k == 'array' and t['len'] is not None and t['len'] <= 8:
            return Agg(ty, 0, [self.mk(t['elem'], K('fld', Sym(key, ty), 0, i)) for i in range(t['len'])])
        return Sym(key, ty)

    def mkseq(self, ty, key, elem):
        return VecV(ty, [('s', key, ZERO, Lin.sym(K('len', Sym(key, ty))), elem)])

    def dcell(self, elem, key):
        cell = ('d', Sym(key, None))
        self.celltype[cell] = elem
        return cell

    def mkref(self, ty, key):
        return Ref(self.dcell(self.T(ty)['elem'], key))

    def mkbox(self, ty, ref):
        u = self.fields(ty)[0]
        fs = self.fields(u)
        n = fs[0]
        return Agg(ty, 0, [Agg(u, 0, [Agg(n, 0, [ref])] + [Agg(x, 0, ()) for x in fs[1:]])] +
                   [Agg(x, 0, ()) for x in self.fields(ty)[1:]])

    def expand(self, v, variant=None, st=None):
        """Sym of a product (or of a known variant) -> Agg"""
        t = self.T(v.ty)
        if t['k'] == 'adt' and t['kind'] == 'enum':
            if variant is None:
                variant = st.var.get(v.k) if st else None
                if not isinstance(variant, int):
                    return None
        elif t['k'] == 'adt' and t['kind'] == 'struct' and not t['phantom']:
            variant = 0
        elif t['k'] in ('tuple', 'closure') or (t['k'] == 'array' and t['len'] is not None):
            variant = 0
        else:
            return None
        fs = self.fields(v.ty, variant)
        return Agg(v.ty, variant, [self.mk(f, K('fld', v, variant, i)) for i, f in enumerate(fs)])

    # ---------------------------------------------------------------- comparing values: True / False / None
    def same(self, st, a, b, depth=0):
        if a is b or a == b:
            return True
        if depth > 40:
            return None
        if isinstance(a, Lin) and isinstance(b, Lin):
            d = a - b
            c = d.const()
            if c is not None:
                return c == 0
            if st.entails(d) and st.entails(-d):
                return True
            if self.soft(d) and not (st.entails(d + 1) or st.entails(Lin(1) - d)):
                return None
            return False
        if isinstance(a, Sym):
            x = self.expand(a, None, st) if a.ty is not None else None
            if x is None and isinstance(a, Sym) and isinstance(b, Lin) and st.bl.get(a.k) is not None:
                return B(st.bl[a.k]) == b
            if x is not None and not (isinstance(b, Sym) and self.expand(b, None, st) is None):
                a = x
        if isinstance(b, Sym):
            x = self.expand(b, None, st) if b.ty is not None else None
            if x is None and isinstance(a, Lin) and st.bl.get(b.k) is not None:
                return B(st.bl[b.k]) == a
            if x is not None and isinstance(a, Agg):
                b = x
        if isinstance(a, Agg) and isinstance(b, Agg):
            if a.v != b.v or len(a.f) != len(b.f):
                if not a.f and not b.f and a.v == b.v:
                    return True
                return False
            r = True
            for x, y in zip(a.f, b.f):
                s = self.same(st, x, y, depth + 1)
                if s is False:
                    return False
                if s is None:
                    r = None
            return r
        if isinstance(a, Ref) and isinstance(b, Ref):
            return self.same(st, self.read(st, a.cell, a.path), self.read(st, b.cell, b.path), depth + 1)
        if isinstance(a, VecV) and isinstance(b, VecV):
            return self.same_seq(st, a, b)
        if isinstance(a, Sym) and isinstance(b, Sym):
            if eq_fact(st, a, b):
                return True
            if self.soft(a) or self.soft(b):
                return None
            return False
        return None

    def norm_seq(self, st, v):
        """merge runs; returns list of chunks without overrides or None"""
        if v.w:
            return None
        out = []
        for c in v.ch:
            if c[0] == 's':
                if st.known_eq(c[3], ZERO):
                    continue
                if out and out[-1][0] == 's' and out[-1][1] == c[1] and st.known_eq(out[-1][2] + out[-1][3], c[2]):
                    out[-1] = ('s', c[1], out[-1][2], out[-1][3] + c[3], c[4])
                    continue
            elif isinstance(c[1], (Sym, Lin)):
                k = c[1].k if isinstance(c[1], Sym) else (c[1].t[0][0] if len(c[1].t) == 1 and c[1].c == 0 and c[1].t[0][1] == 1 else None)
                key = KEYS[k] if k is not None else ('',)
                if key[0] == 'el':
                    if out and out[-1][0] == 's' and out[-1][1] == key[1].k and st.known_eq(out[-1][2] + out[-1][3], key[2]):
                        out[-1] = ('s', out[-1][1], out[-1][2], out[-1][3] + 1, out[-1][4])
                        continue
            out.append(c)
        return out

    def same_seq(self, st, a, b):
        x, y = self.norm_seq(st, a), self.norm_seq(st, b)
        if x is None or y is None:
            return True if a == b else None
        d = a.length() - b.length()
        c = d.const()
        if c is not None and c != 0:
            return False
        if c is None and (st.entails(d + 1) or st.entails(Lin(1) - d)):
            return False
        if c is None and not st.known_eq(a.length(), b.length()) and not self.soft(d):
            return False  # the facts of this path allow different lengths
        if len(x) == len(y):
            r = True
            for p, q in zip(x, y):
                if p[0] != q[0]:
                    r = None
                    break
                if p[0] == 'e':
                    s = self.same(st, p[1], q[1])
                elif p[1] == q[1] and st.known_eq(p[2], q[2]) and st.known_eq(p[3], q[3]):
                    s = True
                else:
                    s = None
                if s is False and r is True:
                    return False
                if s is not True:
                    r = None if s is None else False
                    break
            if r is not None:
                return r
        # compare element-wise from the back
        i, j = len(x) - 1, len(y) - 1
        while i >= 0 and j >= 0 and x[i][0] == 'e' and y[j][0] == 'e':
            if self.same(st, x[i][1], y[j][1]) is False:
                return False if c == 0 else None
            i -= 1
            j -= 1
        return None

    # ---------------------------------------------------------------- memory
    def load(self, st, cell):
        v = st.mem.get(cell)
        if v is None:
            ty = self.celltype.get(cell)
            if ty is None:
                return UNDEF
            base = cell[1]
            v = self.mk(ty, K('deref', base))
            st.mem[cell] = v
        return v

    def read(self, st, cell, path):
        v = self.load(st, cell)
        for p in path:
            v = self.proj(st, v, p)
        return v

    def proj(self, st, v, p):
        k = p[0]
        if k == 'f':
            _, variant, i = p
            if isinstance(v, Agg):
                if v.v == 'u':
                    return v.f[0]
                if variant is not None and v.v != variant:
                    raise PathEnd('wrong variant')
                if i >= len(v.f):
                    return UNDEF
                return v.f[i]
            if isinstance(v, Sym):
                t = self.T(v.ty)
                if t['k'] == 'adt' and t['kind'] == 'union':
                    return self.mk(t['variants'][0]['fields'][i][1], K('fld', v, 0, i))
                return self.mk(self.fields(v.ty, variant)[i], K('fld', v, variant or 0, i))
            if v is UNDEF:
                return UNDEF
            raise Undecided('field %d of %r' % (i, v))
        if k == 'i':
            if isinstance(v, Agg):
                c = p[1].const()
                if c is not None:
                    if c >= len(v.f):
                        raise PathEnd('index out of range')
                    return v.f[c]
                for j in range(len(v.f)):
                    if st.eqint(p[1], Lin(j)):
                        return v.f[j]
                raise PathEnd('index out of range')
            if isinstance(v, VecV):
                return self.vget(st, v, p[1])
            if isinstance(v, Sym):
                t = self.T(v.ty)
                return self.mk(t['elem'], K('el', v, p[1]))
            raise Undecided('index of %r' % (v,))
        if k == 'sub':
            return self.vsub(st, self.asvec(v), p[1], p[2])
        if k == 'wrap':
            fs = self.fields(p[1])
            return Agg(p[1], 0, [v if i == p[2] else Agg(f, 0, ()) for i, f in enumerate(fs)])
        raise Undecided('projection %r' % (p,))

    def asvec(self, v):
        if isinstance(v, VecV):
            return v
        if isinstance(v, Agg):
            return VecV(v.ty, [('e', x) for x in v.f])
        if isinstance(v, Sym):
            t = self.T(v.ty)
            if t['k'] == 'array' and t.get('len') is not None and t['len'] <= 8:
                x = self.expand(v, None, None)
                if isinstance(x, Agg):
                    return VecV(v.ty, [('e', y) for y in x.f])
            if t['k'] == 'array':
                return VecV(v.ty, [('s', v.k, ZERO, Lin.sym(K('cparam', t['s'])), t['elem'])])
        raise Undecided('not a sequence: %r' % (v,))

    def write(self, st, cell, path, val):
        if not path:
            st.mem[cell] = val
            return
        st.mem[cell] = self.setp(st, self.load(st, cell), path, val)

    def setp(self, st, v, path, val):
        if not path:
            return val
        p = path[0]
        if p[0] == 'f':
            _, variant, i = p
            if isinstance(v, Sym):
                x = self.expand(v, variant, st)
                if x is None:
                    raise Undecided('write into %r' % (v,))
                v = x
            if v is UNDEF:
                v = Agg(None, variant or 0, [UNDEF] * (i + 1))
            if isinstance(v, Agg):
                if v.v == 'u':
                    return Agg(v.ty, 'u', [self.setp(st, v.f[0], path[1:], val)])
                if i >= len(v.f):
                    v = Agg(v.ty, v.v, v.f + (UNDEF,) * (i + 1 - len(v.f)))
                return v.with_field(i, self.setp(st, v.f[i], path[1:], val))
            raise Undecided('write field of %r' % (v,))
        if p[0] == 'i':
            if isinstance(v, Agg):
                c = p[1].const()
                if c is None:
                    for j in range(len(v.f)):
                        if st.eqint(p[1], Lin(j)):
                            c = j
                            break
                    else:
                        raise PathEnd('range')
                return v.with_field(c, self.setp(st, v.f[c], path[1:], val))
            if isinstance(v, VecV):
                if path[1:]:
                    val = self.setp(st, self.vget(st, v, p[1]), path[1:], val)
                return self.vset(st, v, p[1], val)
            raise Undecided('write element of %r' % (v,))
        if p[0] == 'wrap':
            if len(path) == 1:
                if isinstance(val, Agg):
                    return val.f[p[2]]
                raise Undecided('write through wrapper')
            raise Undecided('write through wrapper')
        raise Undecided('write projection %r' % (p,))

    # sequences ---------------------------------------------------------
    def find(self, st, v, idx):
        """(chunk number, start) of the chunk holding position idx; forks if open"""
        pos = ZERO
        last = len(v.ch) - 1
        for n, c in enumerate(v.ch):
            end = pos + (1 if c[0] == 'e' else c[3])
            if st.le(idx - end + 1):
                return n, pos
            pos = end
        raise PathEnd('index out of range')

    def vget(self, st, v, idx):
        for wi, x in reversed(v.w):
            if st.eqint(idx, wi):
                return x
        n, pos = self.find(st, v, idx)
        c = v.ch[n]
        if c[0] == 'e':
            return c[1]
        return self.elem(c, c[2] + idx - pos)

    def elem(self, c, i):
        return self.mk(c[4], K('el', Sym(c[1], None), i))

    def vset(self, st, v, idx, val):
        w = []
        for wi, x in v.w:
            if not st.eqint(idx, wi):
                w.append((wi, x))
        n, pos = self.find(st, v, idx)
        c = v.ch[n]
        if c[0] == 'e':
            return VecV(v.ty, v.ch[:n] + (('e', val),) + v.ch[n + 1:], w, v.tag)
        w.append((idx, val))
        return VecV(v.ty, v.ch, w, v.tag)

    def vtrunc(self, st, v, n):
        """first n elements (n <= len assumed decided)"""
        if v.w:
            w = [(i, x) for i, x in v.w if st.le(i - n + 1)]
        else:
            w = ()
        out = []
        pos = ZERO
        for c in v.ch:
            if st.known_eq(pos, n):
                break
            ln = Lin(1) if c[0] == 'e' else c[3]
            if st.le(pos + ln - n):
                out.append(c)
                pos = pos + ln
                continue
            if c[0] == 'e':
                if st.eqint(pos, n):
                    break
                raise PathEnd('trunc')
            if not st.known_eq(n - pos, ZERO):
                out.append(('s', c[1], c[2], n - pos, c[4]))
            break
        return VecV(v.ty, out, w, v.tag)

    def vskip(self, st, v, n):
        """drop the first n elements"""
        if v.w:
            v = self.vmat(st, v)
        out = []
        pos = ZERO
        ch = list(v.ch)
        for m, c in enumerate(ch):
            if st.known_eq(pos, n):
                out.extend(ch[m:])
                return VecV(v.ty, out, (), v.tag)
            ln = Lin(1) if c[0] == 'e' else c[3]
            if st.le(pos + ln - n):
                pos = pos + ln
                continue
            if c[0] == 'e':
                raise PathEnd('skip')
            d = n - pos
            out.append(('s', c[1], c[2] + d, c[3] - d, c[4]))
            out.extend(ch[m + 1:])
            return VecV(v.ty, out, (), v.tag)
        return VecV(v.ty, out, (), v.tag)

    def vmat(self, st, v):
        """materialise overrides as elements"""
        for wi, x in v.w:
            n, pos = self.find(st, v, wi)
            c = v.ch[n]
            if c[0] == 'e':
                ch = [('e', x)]
            else:
                o = wi - pos
                ch = [('s', c[1], c[2], o, c[4]), ('e', x), ('s', c[1], c[2] + o + 1, c[3] - o - 1, c[4])]
                ch = [q for q in ch if not (q[0] == 's' and st.known_eq(q[3], ZERO))]
            v = VecV(v.ty, v.ch[:n] + tuple(ch) + v.ch[n + 1:], (), v.tag)
        return v

    def vsub(self, st, v, start, ln):
        if start == ZERO and st.known_eq(ln, v.length()):
            return v
        return self.vtrunc(st, self.vskip(st, v, start), ln)

    def vpush(self, v, x):
        return VecV(v.ty, v.ch + (('e', x),), v.w, v.tag)

    def vpop(self, st, v):
        """(value or None, rest); forks when emptiness is open"""
        ch = list(v.ch)
        while ch:
            c = ch[-1]
            if c[0] == 'e':
                x = c[1]
                ch.pop()
                break
            if st.le(c[3]):
                ch.pop()
                continue
            last = c[3] - 1
            x = self.elem(c, c[2] + last)
            ch.pop()
            if not st.known_eq(last, ZERO):
                ch.append(('s', c[1], c[2], last, c[4]))
            break
        else:
            return None, VecV(v.ty, (), (), v.tag)
        if v.w:
            n = v.length() - 1
            w = []
            for wi, y in v.w:
                if st.eqint(wi, n):
                    x = y
                else:
                    w.append((wi, y))
            return x, VecV(v.ty, ch, w, v.tag)
        return x, VecV(v.ty, ch, (), v.tag)

    # ---------------------------------------------------------------- places and operands
    def place(self, st, fr, pl):
        cell = (fr.uid, pl[0])
        path = []
        ty = fr.body['locals'][pl[0]]
        variant = None
        for e in pl[1]:
            k = e[0]
            if k == '*':
                v = self.read(st, cell, path)
                r = self.toref(v)
                if r is None:
                    raise Undecided('deref of %r' % (v,))
                cell, path = r.cell, list(r.path)
                t = self.T(ty)
                if t['k'] in ('ref', 'ptr'):
                    ty = t['elem']
                elif t['k'] == 'adt' and t['box']:
                    ty = t['args'][0]
                else:
                    ty = None
            elif k == 'f':
                path = self.addp(path, ('f', variant, e[1]))
                ty = e[2]
            elif k == 'd':
                variant = e[1]
                continue
            elif k == 'i':
                i = self.read(st, (fr.uid, e[1]), ())
                path = self.addp(path, ('i', self.int(i)))
                ty = self.elemty(ty)
            elif k == 'ci':
                if e[3]:
                    v = self.asvec(self.read(st, cell, path))
                    i = v.length() - e[1]
                else:
                    i = Lin(e[1])
                path = self.addp(path, ('i', i))
                ty = self.elemty(ty)
            elif k == 'ss':
                v = self.asvec(self.read(st, cell, path))
                n = v.length()
                end = n - e[2] if e[3] else Lin(e[2])
                path = self.addp(path, ('sub', Lin(e[1]), end - e[1]))
            elif k == 'oc':
                pass
            else:
                raise Undecided('projection %r' % (e,))
            variant = None
        return cell, tuple(path), ty

    def elemty(self, ty):
        if ty is None:
            return None
        t = self.T(ty)
        return t.get('elem')

    def addp(self, path, p):
        path = list(path)
        if path:
            q = path[-1]
            if q[0] == 'wrap' and p[0] == 'f' and p[2] == q[2]:
                path.pop()
                return path
            if q[0] == 'sub' and p[0] == 'i':
                path.pop()
                path.append(('i', q[1] + p[1]))
                return path
            if q[0] == 'sub' and p[0] == 'sub':
                path.pop()
                path.append(('sub', q[1] + p[1], p[2]))
                return path
        path.append(p)
        return path

    def toref(self, v):
        while isinstance(v, Agg) and v.f:
            v = v.f[0]
        if isinstance(v, Ref):
            return v
        if isinstance(v, Sym) and v.ty is not None:
            t = self.T(v.ty)
            if t['k'] in ('ref', 'ptr'):
                return self.mkref(v.ty, v.k)
        return None

    def toref_plain(self, v):
        r = self.toref(v)
        if r is None:
            raise Undecided('not a reference: %r' % (v,))
        return r

    def unchecked(self, st, fr, t, idx, v):
        pass

    def scalar(self, ty):
        return ty is not None and self.T(ty)['k'] in ('param', 'alias', 'opaque', 'other', 'float', 'int', 'char', 'uint')

    def eq_mode(self, ty):
        """how == behaves on the opaque type: 'eq' (total equality) or 'ord' (floating-point like)"""
        return 'eq'

    def ordsplit(self, st, x, y):
        cur = st.rel(x.k, y.k)
        if len(cur) == 1:
            return next(iter(cur))
        raise Split(*[[('ord', x.k, y.k, frozenset(c))] for c in sorted(cur)])

    def int(self, v):
        if isinstance(v, Lin):
            return v
        if isinstance(v, Agg) and len(v.f) >= 1:
            return self.int(v.f[0])
        if isinstance(v, Sym):
            return Lin.sym(v.k)
        raise Undecided('not an int: %r' % (v,))

    def operand(self, st, fr, op):
        k = op[0]
        if k == 'k':
            return self.const(st, op[1])
        if k == 'rc':
            return FALSE
        cell, path, _ = self.place(st, fr, op[1])
        return self.read(st, cell, path)

    def const(self, st, c):
        k = c['k']
        ty = c['ty']
        if k == 'int':
            t = self.T(ty)
            if t['k'] == 'int':
                n = int(c['v'])
                b = {'i8': 8, 'i16': 16, 'i32': 32, 'i64': 64, 'isize': 64, 'i128': 128}.get(t['s'], 0)
                return Lin(n - (1 << b) if b and n >= 1 << (b - 1) else n)
            if t['k'] in ('uint', 'bool'):
                return Lin(int(c['v']))
            if t['k'] == 'char':
                return Lin(int(c['v']))
            return Sym(K('const', t['s'], str(c['v'])), ty)
        if k == 'zst':
            t = self.T(ty)
            if t['k'] == 'fndef':
                return FnV(t['inst'], ty)
            return Agg(ty, 0, ())
        if k == 'fn':
            return FnV(c['inst'], ty)
        if k == 'agg':
            return Agg(ty, c.get('variant') or 0, [self.const(st, f) for f in c['fields']])
        if k == 'str':
            return Sym(K('str', c['v']), ty)
        if k == 'param':
            return Lin.sym(K('cparam', c['s']))
        if k in ('promoted', 'constbody'):
            return self.eval_const(st, c['inst'])
        if k == 'assoc':
            i = self.inst(c['inst'])
            h = self.on_assoc(st, i, ty)
            if h is not None:
                return h
            return self.mk(ty, K('assoc', i['full']))
        if k == 'static':
            return Sym(K('static', c['path']), ty)
        if k == 'fnptr':
            return FnV(c['inst'], ty)
        return Sym(K('alloc', fresh('alloc')), ty)

    def on_assoc(self, st, inst, ty):
        return None

    def eval_const(self, st, n):
        r = self.constcache.get(n)
        if r is None:
            sub = State()
            sub.ghost = {'__const': 1}
            res = []
            save = (self.on_final, self.on_drop, self.on_return)
            self.on_final = lambda s, v: res.append((s, v))
            self.on_drop = None
            try:
                self.push(sub, n, [], None, None)
                self.explore([sub], count=False)
            finally:
                self.on_final, self.on_drop, self.on_return = save
            r = self.constcache[n] = [([('var', k, x) for k, x in s.var.items() if isinstance(x, int)] + [('bool', k, x) for k, x in s.bl.items()],
                                       v, {c: x for c, x in s.mem.items()}) for s, v in res]
        live = []
        for facts, v, mem in r:
            ok = True
            for f in facts:
                o = st.var.get(f[1]) if f[0] == 'var' else st.bl.get(f[1])
                if o is not None and not isinstance(o, frozenset) and o != f[2]:
                    ok = False
            if ok:
                live.append((facts, v, mem))
        if not live:
            raise PathEnd('const')
        if len(live) > 1:
            raise Split(*[f for f, _, _ in live])
        facts, v, mem = live[0]
        st.assume(facts)
        for c, x in mem.items():
            st.mem.setdefault(c, x)
        return v

    # ---------------------------------------------------------------- rvalues
    def rvalue(self, st, fr, rv, dty):
        k = rv[0]
        if k == 'use':
            return self.operand(st, fr, rv[1])
        if k == 'ref' or k == 'rawptr':
            cell, path, _ = self.place(st, fr, rv[1])
            return Ref(cell, path)
        if k == 'agg':
            ops = [self.operand(st, fr, o) for o in rv[2]]
            a = rv[1]
            if a[0] == 'adt':
                t = self.T(a[1])
                if t['kind'] == 'union':
                    return Agg(dty, 'u', ops)
                return Agg(dty if dty is not None else a[1], a[2], ops)
            if a[0] == 'rawptr':
                r = self.toref(ops[0])
                if r is not None and isinstance(ops[1], Lin):
                    return Ref(r.cell, tuple(self.addp(self.strip_elem0(r.path), ('sub', ZERO, ops[1])))) if False else self.slice_ref(st, r, ops[1])
                raise Undecided('raw pointer aggregate')
            return Agg(dty, 0, ops)
        if k == 'bin':
            return self.binop(st, rv[1], self.operand(st, fr, rv[2]), self.operand(st, fr, rv[3]), dty)
        if k == 'un':
            return self.unop(st, rv[1], self.operand(st, fr, rv[2]), dty)
        if k == 'discr':
            cell, path, ty = self.place(st, fr, rv[1])
            return self.discr(st, self.read(st, cell, path), ty)
        if k == 'cast':
            return self.cast(st, rv[1], self.operand(st, fr, rv[2]), rv[3], self.opty(fr, rv[2]))
        if k == 'repeat':
            if rv[2] is None or rv[2] > 64:
                raise Undecided('repeat')
            x = self.operand(st, fr, rv[1])
            return Agg(dty, 0, [x] * rv[2])
        raise Undecided('rvalue %r' % (rv,))

    def slice_ref(self, st, r, n):
        raise Undecided('raw slice')

    def opty(self, fr, op):
        if op[0] == 'k':
            return op[1].get('ty')
        if op[0] == 'rc':
            return None
        ty = fr.body['locals'][op[1][0]]
        for e in op[1][1]:
            if e[0] == '*':
                t = self.T(ty)
                ty = t.get('elem') if t['k'] in ('ref', 'ptr') else (t['args'][0] if t['k'] == 'adt' else None)
            elif e[0] == 'f':
                ty = e[2]
            elif e[0] in ('i', 'ci'):
                ty = self.elemty(ty)
            if ty is None:
                return None
        return ty

    def variant(self, st, v):
        """variant index, forking if open"""
        if isinstance(v, Agg):
            return v.v
        if isinstance(v, Sym):
            x = st.var.get(v.k)
            if isinstance(x, int):
                return x
            t = self.T(v.ty)
            if t['k'] != 'adt' or t['kind'] != 'enum':
                raise Undecided('variant of %s' % t['s'])
            alts = []
            for i, vt in enumerate(t['variants']):
                if x is not None and i in x:
                    continue
                if any(self.uninhabited(f[1]) for f in vt['fields']):
                    continue
                alts.append([('var', v.k, i)])
            if not alts:
                raise PathEnd('uninhabited')
            if len(alts) == 1:
                st.assume(alts[0])
                return alts[0][0][2]
            raise Split(*alts)
        raise Undecided('variant of %r' % (v,))

    def discr(self, st, v, ty):
        if isinstance(v, (Agg, Sym)):
            i = self.variant(st, v)
            ty = v.ty if v.ty is not None else ty
            d = int(self.T(ty)['variants'][i]['discr'])
            return Lin(d - 256 if d > 127 and self.T(ty)['raw'] == 'core::cmp::Ordering' else d)
        if v is UNDEF and ty is not None and self.T(ty)['k'] == 'adt' and self.T(ty)['kind'] == 'enum':
            # the optimiser leaves values of types with a single value unwritten
            live = [x for x in self.T(ty)['variants'] if not any(self.uninhabited(f[1]) for f in x['fields'])]
            if len(live) == 1 and not live[0]['fields']:
                return Lin(int(live[0]['discr']))
        raise Undecided('discriminant of %r' % (v,))

    def truth(self, st, v):
        if isinstance(v, Lin):
            c = v.const()
            if c is not None:
                return c != 0
            raise Undecided('truth of %r' % (v,))
        if isinstance(v, Sym):
            b = st.bl.get(v.k)
            if b is not None:
                return b
            raise Split([('bool', v.k, True)], [('bool', v.k, False)])
        raise Undecided('truth of %r' % (v,))

    def binop(self, st, op, a, b, dty):
        if isinstance(a, Agg) and len(a.f) == 1:
            a = a.f[0]
        if isinstance(b, Agg) and len(b.f) == 1:
            b = b.f[0]
        wo = op.endswith('WithOverflow')
        base = op.replace('WithOverflow', '').replace('Unchecked', '')
        if isinstance(a, Lin) and isinstance(b, Lin):
            r = None
            ov = FALSE
            if base == 'Add':
                r = a + b
            elif base == 'Sub':
                r = a - b
                if r.const() is None or r.c < 0:
                    ov = ('neg', r)
            elif base == 'Mul':
                if a.const() is not None:
                    r = b.mul(a.c)
                elif b.const() is not None:
                    r = a.mul(b.c)
                else:
                    r = Lin.sym(K('mul', a, b))
            elif base in ('Div', 'Rem'):
                r = self.divrem(st, base, a, b)
            elif base in ('Lt', 'Le', 'Gt', 'Ge'):
                if base == 'Lt':
                    return B(st.le(a - b + 1))
                if base == 'Le':
                    return B(st.le(a - b))
                if base == 'Gt':
                    return B(st.le(b - a + 1))
                return B(st.le(b - a))
            elif base == 'Eq':
                return B(st.eqint(a, b))
            elif base == 'Ne':
                return B(not st.eqint(a, b))
            elif base == 'Cmp':
                c = st.cmp(a, b)
                return Agg(dty, c + 1, ())
            elif base in ('BitXor', 'BitAnd', 'BitOr') and a.const() is not None and b.const() is not None:
                r = Lin({'BitXor': a.c ^ b.c, 'BitAnd': a.c & b.c, 'BitOr': a.c | b.c}[base])
            elif base in ('Shl',) and b.const() is not None and b.c < 64:
                r = a.mul(1 << b.c)
            elif base in ('Shr',) and b.const() is not None and b.c < 64:
                r = self.divrem(st, 'Div', a, Lin(1 << b.c))
            if r is None:
                r = Lin.sym(K('op', base, a, b))
            if base in ('Add', 'Mul', 'Shl') and dty is not None and isinstance(r, Lin):
                r, over = self.fit(st, r, dty, op.endswith('Unchecked'))
                if over:
                    ov = TRUE
            if wo:
                if isinstance(ov, tuple):
                    ov = B(st.le(ov[1] + 1))
                return Agg(dty, 0, [r, ov])
            if base == 'Sub' and isinstance(ov, tuple):
                if not st.entails(-r):
                    if op == 'SubUnchecked':
                        if not st.assume([('le', -r)]):
                            raise PathEnd('underflow')
                    else:
                        # wrapping: a negative result is a huge number
                        if not st.le(-r):
                            return Lin.sym(K('wrap', r))
            return r
        if base in ('BitXor', 'BitAnd', 'BitOr', 'Eq', 'Ne', 'Lt', 'Le', 'Gt', 'Ge') and self.isbool(a) and self.isbool(b):
            x, y = self.truth(st, a), self.truth(st, b)
            return B({'BitXor': x != y, 'Ne': x != y, 'Eq': x == y, 'BitAnd': x and y, 'BitOr': x or y, 'Lt': x < y, 'Le': x <= y,
                      'Gt': x > y, 'Ge': x >= y}[base])
        if base in ('Eq', 'Ne') and isinstance(a, Ref) and isinstance(b, Ref):
            raise Undecided('pointer comparison')
        if isinstance(a, (Sym, Lin)) and isinstance(b, (Sym, Lin)):
            ty = a.ty if isinstance(a, Sym) else b.ty
            if base in ('Eq', 'Ne', 'Lt', 'Le', 'Gt', 'Ge'):
                return B(self.ordcmp(st, base, a, b))
            if base == 'Cmp':
                return Sym(K('op', 'cmp', a, b), dty)
            r = Sym(K('op', base, a, b), ty)
            if wo:
                return Agg(dty, 0, [r, FALSE])
            return r
        raise Undecided('binop %s %r %r' % (op, a, b))

    def isbool(self, v):
        if isinstance(v, Lin):
            return v.const() in (0, 1)
        return isinstance(v, Sym) and v.ty is not None and self.T(v.ty)['k'] == 'bool'

    REL = {'Eq': '=', 'Ne': '<>u', 'Lt': '<', 'Le': '<=', 'Gt': '>', 'Ge': '>='}

    def okey(self, v):
        """order key of an opaque scalar"""
        if isinstance(v, Sym):
            return v.k
        return K('val', v)

    def ordcmp(self, st, op, a, b):
        ka, kb = self.okey(a), self.okey(b)
        cur = st.rel(ka, kb)
        want = frozenset(self.REL[op])
        if cur <= want:
            return True
        if not (cur & want):
            return False
        raise Split([('ord', ka, kb, cur & want)], [('ord', ka, kb, cur - want)])

    def divrem(self, st, op, a, b):
        n = b.const()
        if n is not None and n > 0:
            if a.const() is not None:
                return Lin(a.c // n) if op == 'Div' else Lin(a.c % n)
            if all(v % n == 0 for _, v in a.t):
                q = Lin(a.c // n, tuple((k, v // n) for k, v in a.t))
                return q if op == 'Div' else Lin(a.c % n)
            # split off the divisible part
            dq = tuple((k, v // n) for k, v in a.t if v % n == 0)
            rest = Lin(a.c % n, tuple((k, v) for k, v in a.t if v % n))
            q = Lin.sym(K('div', rest, n))
            st.assume([('le', q.mul(n) - rest), ('le', rest - q.mul(n) - (n - 1))])
            quot = Lin(a.c // n, dq) + q
            return quot if op == 'Div' else a - quot.mul(n)
        if op == 'Rem':
            if st.le(a - b + 1):
                return a
            if st.le(a - b.mul(2) + 1):
                return a - b
            r = Lin.sym(K('mod', a, b))
            st.assume([('le', r - b + 1)])
            return r
        return Lin.sym(K('div', a, b))

    def unop(self, st, op, a, dty):
        if op == 'Not':
            if self.isbool(a):
                return B(not self.truth(st, a))
            return Lin.sym(K('not', a))
        if op == 'Neg':
            if isinstance(a, Lin) and a.const() is not None:
                return Lin(-a.c)
            return Sym(K('op', 'neg', a), dty)
        if op == 'PtrMetadata':
            r = self.toref(a)
            v = self.read(st, r.cell, r.path)
            if isinstance(v, (VecV, Agg)) and not (isinstance(v, Agg) and self.T(v.ty)['k'] != 'array'):
                return self.asvec(v).length()
            return Agg(dty, 0, ())
        raise Undecided('unop ' + op)

    def fit(self, st, r, ty, sure=False):
        """the result of an operation on a narrow integer type (wrapped, whether it was)"""
        t = self.T(ty)
        if t['k'] == 'tuple':
            t = self.T(t['fields'][0])
        if t['k'] not in ('uint', 'int') or t.get('bits', 64) > 16 and r.const() is None:
            return r, False
        b = t.get('bits', 64)
        if r.const() is not None:
            c = narrow(r.c, b, t['k'] == 'int')
            return (r, False) if c == r.c else (Lin(c), True)
        top = (1 << (b if t['k'] == 'uint' else b - 1)) - 1
        if sure:
            if not st.assume([('le', r - top)]):
                raise PathEnd('overflow')
            return r, False
        if st.le(r - top):
            return r, False
        return Lin.sym(K('wrap', r)), True

    def cast(self, st, kind, v, ty, fty):
        t = self.T(ty)
        if kind.startswith('PointerCoercion'):
            if 'ClosureFnPointer' in kind or 'Reify' in kind or 'Unsize' in kind or 'MutToConst' in kind or 'UnsafeFn' in kind or 'ArrayToPointer' in kind:
                return v
            raise Undecided('cast ' + kind)
        if kind == 'IntToInt':
            if isinstance(v, Lin):
                if t['k'] in ('uint', 'int') and fty is not None:
                    f = self.T(fty)
                    if v.const() is not None and f['k'] != 'bool':
                        return Lin(narrow(v.c, t.get('bits', 64), t['k'] == 'int'))
                    if f['k'] == 'bool' or t.get('bits', 64) >= f.get('bits', 64):
                        return v
                    return Lin.sym(K('trunc', v, t['s']))
                return v
            if self.isbool(v):
                return B(self.truth(st, v))
            return Sym(K('cast', v, t['s']), ty)
        if kind in ('FloatToInt', 'IntToFloat', 'FloatToFloat'):
            return self.mk(ty, K('cast', v, t['s']))
        if kind == 'Transmute' and isinstance(v, Lin) and t['k'] == 'adt' and t['raw'] == 'core::option::Option':
            nz = t['args'][0]
            if self.T(nz)['k'] == 'adt' and self.T(nz)['raw'].endswith('NonZero'):
                return Agg(ty, 0, ()) if st.eqint(v, ZERO) else Agg(ty, 1, [Agg(nz, 0, [v])])
        if kind in ('PtrToPtr', 'Transmute', 'FnPtrToPtr', 'BoxDerefTransmute'):
            r = self.toref(v)
            if r is not None and t['k'] in ('ref', 'ptr'):
                f = self.T(fty) if fty is not None else None
                if f is not None and f['k'] in ('ref', 'ptr') and f['elem'] != t['elem']:
                    return self.ptrcast(st, r, f['elem'], t['elem'])
                return r
            if r is not None and t['k'] == 'adt':
                x = r
                return self.wrapref(ty, x)
            if isinstance(v, Agg) and v.v == 'u':
                return v.f[0]
            if isinstance(v, Lin) and t['k'] in ('uint', 'int', 'bool', 'char'):
                return v
            if isinstance(v, Agg) and len(v.f) == 1:
                return self.cast(st, kind, v.f[0], ty, None)
            if isinstance(v, Lin) and t['k'] == 'adt':
                return Agg(ty, 0, [v])
            return v
        raise Undecided('cast ' + kind)

    def wrapref(self, ty, x):
        t = self.T(ty)
        if t['k'] in ('ref', 'ptr', 'other', 'fnptr'):
            return x
        fs = self.fields(ty)
        return Agg(ty, 0, [self.wrapref(fs[0], x)] + [Agg(f, 0, ()) for f in fs[1:]])

    def ptrcast(self, st, r, a, b):
        """*a -> *b"""
        tb, ta = self.T(b), self.T(a)
        if tb['k'] == 'adt' and tb['kind'] == 'struct' and tb['transparent']:
            fs = self.fields(b)
            for i, f in enumerate(fs):
                if f == a:
                    return Ref(r.cell, tuple(self.addp(r.path, ('wrap', b, i))))
        if ta['k'] == 'adt' and ta['kind'] == 'struct' and ta['transparent']:
            fs = self.fields(a)
            for i, f in enumerate(fs):
                if f == b:
                    return Ref(r.cell, tuple(self.addp(r.path, ('f', None, i))))
        if ta['k'] == 'adt' and ta['kind'] == 'union':
            return r
        return r

    # ---------------------------------------------------------------- running
    def push(self, st, n, args, dest, ret, cont=None):
        b = self.body(n)
        if b is None:
            raise Undecided('no body for %s' % self.inst(n)['full'])
        if len(st.frames) > 80:
            raise Undecided('call depth')
        f = Frame(newuid(), n, b, dest, ret, cont)
        if b['args'] != len(args):
            raise Undecided('argument count of %s: %d for %d' % (self.inst(n)['full'], len(args), b['args']))
        for i, a in enumerate(args):
            st.mem[(f.uid, i + 1)] = a
        st.frames.append(f)
        self.functions.add(n)

    def explore(self, states, count=True):
        work = list(states)
        while work:
            st = work.pop()
            try:
                while True:
                    self.steps += 1
                    if self.steps > self.limit:
                        raise Undecided('step limit')
                    if self.deadline and (self.steps & 255) == 0 and time.time() > self.deadline:
                        raise Undecided('time limit')
                    if not self.step(st):
                        break
            except Split as s:
                n = 0
                for alt in reversed(s.alts):
                    c = st.copy()
                    if c.assume(alt):
                        work.append(c)
                        n += 1
                continue
            except PathEnd as e:
                if self.on_panic and count and str(e) == 'panic':
                    self.on_panic(st)
            except Undecided as e:
                if not count or str(e) in ('step limit', 'time limit'):
                    raise
                fr = st.frames[-1] if st.frames else None
                where = self.inst(fr.inst)['full'] if fr else ''
                self.undecided.append('%s (in %s bb%s)' % (e, where, fr.bb if fr else ''))
            if count:
                self.paths += 1

    def step(self, st):
        """one block piece; returns False when the path is finished"""
        fr = st.frames[-1]
        blk = fr.body['blocks'][fr.bb]
        ss = blk['s']
        while fr.si < len(ss):
            self.stmt(st, fr, ss[fr.si])
            fr.si += 1
        return self.term(st, fr, blk['t'])

    def stmt(self, st, fr, s):
        k = s[0]
        if k == '=':
            cell, path, ty = self.place(st, fr, s[1])
            v = self.rvalue(st, fr, s[2], ty)
            self.write(st, cell, path, v)
        elif k == 'dead':
            st.mem.pop((fr.uid, s[1]), None)
        elif k == 'live':
            pass
        elif k == 'setdiscr':
            cell, path, ty = self.place(st, fr, s[1])
            v = self.read(st, cell, path)
            if isinstance(v, Agg):
                v = Agg(v.ty, s[2], v.f)
            elif v is UNDEF:
                v = Agg(ty, s[2], ())
            else:
                raise Undecided('set discriminant')
            self.write(st, cell, path, v)
        elif k == 'assume':
            v = self.operand(st, fr, s[1])
            if not self.truth(st, v):
                raise PathEnd('assume')
        else:
            raise Undecided('statement ' + k)

    def term(self, st, fr, t):
        k = t[0]
        if k == 'goto':
            return self.goto(st, fr, t[1])
        if k == 'switch':
            v = self.operand(st, fr, t[1])
            if isinstance(v, Sym):
                tt = self.T(t[4])
                if tt['k'] == 'bool':
                    v = B(self.truth(st, v))
                else:
                    v = Lin.sym(v.k)
            for val, tgt in t[2]:
                if st.eqint(v, Lin(int(val))) if v.const() is None else v.c == int(val) or v.c < 0 and any(v.c + (1 << b) == int(val) for b in (8, 16, 32, 64, 128)):
                    return self.goto(st, fr, tgt)
            return self.goto(st, fr, t[3])
        if k == 'return':
            return self.ret(st, fr)
        if k == 'call':
            return self.call(st, fr, t)
        if k == 'drop':
            cell, path, _ = self.place(st, fr, t[1])
            v = self.read(st, cell, path)
            return self.drop(st, fr, v, t[4], t[2], (cell, path), t[5])
        if k == 'assert':
            v = self.operand(st, fr, t[1])
            ok = self.truth(st, v) == t[2]
            if not ok:
                st.note(('panic', t[6]))
                raise PathEnd('panic')
            return self.goto(st, fr, t[3])
        if k in ('unreachable', 'resume', 'terminate'):
            raise PathEnd(k)
        raise Undecided('terminator %s' % k)

    def goto(self, st, fr, tgt):
        src = fr.bb
        fr.bb = tgt
        fr.si = 0
        if tgt in fr.body['_heads']:
            back = src in fr.body['_heads'][tgt]
            return self.head(st, fr, tgt, back)
        return True

    def ret(self, st, fr):
        v = st.mem.get((fr.uid, 0), None)
        if v is None:
            lt = self.T(fr.body['locals'][0])
            v = Agg(fr.body['locals'][0], 0, ()) if lt['k'] == 'tuple' and not lt['fields'] else UNDEF
        st.frames.pop()
        for i in range(len(fr.body['locals'])):
            if i in fr.body['_borrowed'] and i != 0:
                continue
            st.mem.pop((fr.uid, i), None)
        for key in [q for q in st.act if q[0] == fr.uid]:
            del st.act[key]
        if self.on_return:
            self.on_return(st, fr, v)
        if fr.cont is not None:
            return fr.cont(self, st, v)
        if not st.frames:
            self.finals += 1
            if self.on_final:
                self.on_final(st, v)
            return False
        self.write(st, fr.dest[0], fr.dest[1], v)
        top = st.frames[-1]
        return self.goto(st, top, fr.ret)

    def result(self, st, fr, t, v):
        """finish a modelled call: store v and continue"""
        cell, path, ty = self.place(st, fr, t[3])
        self.write(st, cell, path, v)
        if t[4] is None:
            raise PathEnd('diverges')
        return self.goto(st, fr, t[4])

    def drop(self, st, fr, v, ty, tgt, loc, span):
        t = self.T(ty)
        if v is not UNDEF and t.get('drop_inst') is not None and t['krate'] in ('triangulate', 'harness'):
            n = t['drop_inst']
            if self.body(n) is not None:
                self.push(st, n, [Ref(loc[0], tuple(loc[1]))], None, None,
                          cont=lambda me, s, r, u=fr.uid, g=tgt: me.after_drop(s, u, v, ty, g, span))
                return True
        if self.on_drop and v is not UNDEF:
            self.on_drop(self, st, v, ty, span)
        return self.goto(st, fr, tgt)

    def after_drop(self, st, uid, v, ty, tgt, span):
        if self.on_drop:
            self.on_drop(self, st, v, ty, span)
        return self.goto(st, st.frames[-1], tgt)

    # ---------------------------------------------------------------- calls
    def call(self, st, fr, t):
        f = t[1]
        args = [self.operand(st, fr, a) for a in t[2]]
        if f[0] == 'op':
            v = self.operand(st, fr, f[1])
            if isinstance(v, FnV):
                return self.invoke(st, fr, t, v.inst, None, args)
            raise Undecided('indirect call')
        return self.invoke(st, fr, t, f[1], f[2], args)

    def invoke(self, st, fr, t, n, via, args):
        i = self.inst(n)
        vi = self.inst(via) if via is not None else i
        for h in self.handlers:
            r = h(self, st, fr, t, i, vi, args)
            if r is not None:
                return r
        if i.get('ctor') is not None:
            return self.result(st, fr, t, Agg(self.place(st, fr, t[3])[2], i['ctor'], list(args)))
        tr = vi['trait'] or i['trait']
        # calls through the Fn traits
        if tr and tr.split('::')[-1] in ('Fn', 'FnMut', 'FnOnce') and vi['name'] in ('call', 'call_mut', 'call_once'):
            return self.call_value(st, args[0], self.untuple(st, args[1]), self.destof(st, fr, t), t[4], fr, t)
        m = self.models.get(i['raw'])
        if m is None and not tr and i['selfty'] and i['krate'] in ('core', 'std', 'alloc', 'smallvec'):
            m = self.models.get(self.selfkey(i['selfty'], i['name']))
        if m is None and tr:
            m = self.models.get((tr.split('::')[-1], i['name'], (i['selfty'] or '').split('<')[0]))
            if m is None:
                m = self.models.get((tr.split('::')[-1], i['name']))
                if m is not None and i['body'] and i['kind'] != 'unresolved' and getattr(m, 'weak', False):
                    m = None
        if m is not None:
            r = m(self, st, fr, t, i, vi, args)
            if r is not NotImplemented:
                return r
        if i['kind'] == 'intrinsic':
            m = self.intrinsics.get(i['name'])
            if m is None:
                raise Undecided('intrinsic ' + i['name'])
            return m(self, st, fr, t, i, vi, args)
        if i['kind'] == 'unresolved' or i['kind'] == 'virtual':
            return self.opaque(st, fr, t, i, vi, args)
        for p in self.prefix:
            if i['raw'].startswith(p):
                return self.opaque(st, fr, t, i, vi, args)
        if i['kind'] == 'clone_shim':
            r = self.toref(args[0])
            return self.result(st, fr, t, self.read(st, r.cell, r.path))
        if i['kind'] == 'drop_glue':
            return self.result(st, fr, t, Agg(None, 0, ()))
        if i['body']:
            if t[4] is None and i['krate'] in ('core', 'std', 'alloc'):
                st.note(('panic', t[6]))
                raise PathEnd('panic')
            a = args
            b = self.body(n)
            if b is None:
                return self.opaque(st, fr, t, i, vi, args)
            if i['closure'] and b['args'] != len(args):
                a = [args[0]] + self.untuple(st, args[1])
            if b.get('spread') is not None and b['args'] != len(a):
                a = args
            self.push(st, n, a, self.destof(st, fr, t), t[4])
            return True
        return self.opaque(st, fr, t, i, vi, args)

    def destof(self, st, fr, t):
        cell, path, ty = self.place(st, fr, t[3])
        return (cell, path)

    def untuple(self, st, v):
        if isinstance(v, Agg):
            return list(v.f)
        if isinstance(v, Sym):
            x = self.expand(v, None, st)
            if x is not None:
                return list(x.f)
        raise Undecided('untuple %r' % (v,))

    def call_value(self, st, f, args, dest, ret, fr, t, cont=None):
        """call a closure / fn item value"""
        g = f
        while isinstance(g, Ref):
            g = self.read(st, g.cell, g.path)
        if isinstance(g, FnV):
            i = self.inst(g.inst)
            if cont is None:
                return self.invoke(st, fr, t, g.inst, g.inst, args)
            return self.invoke_cont(st, fr, g.inst, args, cont)
        if isinstance(g, Agg) and g.ty is not None and self.T(g.ty)['k'] == 'fndef':
            n = self.T(g.ty)['inst']
            if cont is None:
                return self.invoke(st, fr, t, n, n, args)
            return self.invoke_cont(st, fr, n, args, cont)
        if isinstance(g, Agg) and g.ty is not None and self.T(g.ty)['k'] == 'closure':
            n = self.T(g.ty)['inst']
            b = self.body(n)
            st1 = self.T(b['locals'][1])
            a0 = f
            if st1['k'] == 'ref':
                if not isinstance(f, Ref):
                    cell = ('tmp', newuid())
                    st.mem[cell] = f
                    a0 = Ref(cell)
                else:
                    while True:
                        x = self.read(st, a0.cell, a0.path)
                        if not isinstance(x, Ref):
                            break
                        a0 = x
            else:
                a0 = g
            self.push(st, n, [a0] + args, dest, ret, cont)
            return True
        if isinstance(g, Sym):
            return self.opaque_fn(st, g, args, dest, ret, fr, t, cont)
        raise Undecided('call of %r' % (g,))

    def opaque_fn(self, st, g, args, dest, ret, fr, t, cont):
        ty = self.place(st, fr, t[3])[2] if cont is None else None
        v = self.apply_fn(st, g, args, ty)
        if cont is not None:
            return cont(self, st, v)
        return self.result(st, fr, t, v)

    def apply_fn(self, st, g, args, ty):
        if ty is None:
            raise Undecided('opaque function of unknown type')
        return self.mk(ty, K('app', g, tuple(args)))

    def invoke_cont(self, st, fr, n, args, cont):
        """call with a continuation; only for callees with a body or models returning through result()"""
        cell = ('tmp', newuid())
        ty = None
        b = self.body(n) if self.inst(n)['body'] else None
        pseudo = ContFrame(self, st, fr, cont)
        return pseudo.invoke(n, args)

    def opaque(self, st, fr, t, i, vi, args):
        """unknown callee: fresh result, everything reachable through &mut is unknown afterwards"""
        nm = i['full']
        # what a skipped body does is not known: nothing that depends on it is ever reported as wrong
        unknown = i['kind'] != 'unresolved'

        def new(tag):
            k = fresh(tag)
            if unknown:
                self.joinsyms.add(k)
            return k
        self.opaque_calls[nm] = self.opaque_calls.get(nm, 0) + 1
        for a, o in zip(args, t[2]):
            ty = self.opty(fr, o)
            if ty is None:
                continue
            tt = self.T(ty)
            if tt['k'] == 'ref' and tt['mut'] and isinstance(a, Ref):
                self.write(st, a.cell, a.path, self.mk(tt['elem'], new('havoc')))
        if t[4] is None:
            st.note(('panic', t[6]))
            raise PathEnd('panic')
        cell, path, ty = self.place(st, fr, t[3])
        return self.result(st, fr, t, self.mk(ty, new(i['name'])))

    def join_bools(self, A, Bs, J):
        return {}

    def soft(self, v):
        """does the value mention a symbol introduced by a join?"""
        return bool(bases(v) & self.joinsyms)

    # ---------------------------------------------------------------- loop heads
    def head(self, st, fr, bb, back):
        key = (fr.uid, bb)
        if not back or key not in st.act:
            st.act[key] = (newuid(), 0)
            for k in [q for q in st.act if q[0] == fr.uid and q[1] != bb and q[1] in fr.body['_inner'].get(bb, ())]:
                del st.act[k]
            aid, it = st.act[key]
        else:
            aid, it = st.act[key]
            it += 1
            st.act[key] = (aid, it)
            for k in [q for q in st.act if q[0] == fr.uid and q[1] != bb and q[1] in fr.body['_inner'].get(bb, ())]:
                del st.act[k]
        if it < self.delay_of(fr, bb):
            return True
        if self.exact:
            self.cut += 1
            raise PathEnd('cut')
        import join
        return join.at_head(self, st, aid)

    def delay_of(self, fr, bb):
        return self.delay

    # ---------------------------------------------------------------- reporting
    def report(self, st, what, span=None, **kw):
        e = dict(what=what, span=span, joined=st.joined, trace=[x for x in st.trace_list()][-40:])
        e.update(kw)
        self.violations.append(e)

    def unproved(self, st, what, span=None):
        self.proof_failed.append(dict(what=what, span=span, joined=st.joined, trace=st.trace_list()[-40:]))


class ContFrame(object):
    def __init__(self, me, st, fr, cont):
        self.me, self.st, self.fr, self.cont = me, st, fr, cont

    def invoke(self, n, args):
        me, st = self.me, self.st
        i = me.inst(n)
        if i['body'] and me.models.get(i['raw']) is None and (not i['selfty'] or me.models.get(me.selfkey(i['selfty'], i['name'])) is None) and i['kind'] != 'unresolved':
            me.push(st, n, args, None, None, self.cont)
            return True
        raise Undecided('continuation call of ' + i['full'])


def eq_fact(st, a, b):
    x, y = (a, b) if a.k <= b.k else (b, a)
    return st.bl.get(K('eq', x, y)) is True


def prepare(b):
    """loop heads (with the sources of their back edges), nesting, borrowed locals, liveness"""
    blocks = b['blocks']
    n = len(blocks)
    succ = []
    for blk in blocks:
        t = blk['t']
        k = t[0]
        if k == 'goto':
            s = [t[1]]
        elif k == 'switch':
            s = [x[1] for x in t[2]] + [t[3]]
        elif k == 'drop':
            s = [t[2]]
        elif k == 'call':
            s = [t[4]] if t[4] is not None else []
        elif k == 'assert':
            s = [t[3]]
        else:
            s = []
        succ.append(s)
    b['_succ'] = succ
    # reachable, dominators
    order, seen = [], set()
    stack = [(0, iter(succ[0]))] if n else []
    seen.add(0)
    while stack:
        u, it = stack[-1]
        for v in it:
            if v not in seen:
                seen.add(v)
                stack.append((v, iter(succ[v])))
                break
        else:
            order.append(u)
            stack.pop()
    rpo = order[::-1]
    idx = {u: i for i, u in enumerate(rpo)}
    preds = {u: [] for u in rpo}
    for u in rpo:
        for v in succ[u]:
            preds[v].append(u)
    idom = {0: 0}
    changed = True
    while changed:
        changed = False
        for u in rpo[1:]:
            new = None
            for p in preds[u]:
                if p in idom:
                    if new is None:
                        new = p
                    else:
                        a, c = p, new
                        while a != c:
                            while idx[a] > idx[c]:
                                a = idom[a]
                            while idx[c] > idx[a]:
                                c = idom[c]
                        new = a
            if idom.get(u) != new:
                idom[u] = new
                changed = True

    def dom(a, x):
        while True:
            if x == a:
                return True
            if x == 0:
                return False
            x = idom[x]
    heads = {}
    loops = {}
    for u in rpo:
        for v in succ[u]:
            if dom(v, u):
                heads.setdefault(v, set()).add(u)
                body = loops.setdefault(v, {v})
                todo = [u]
                while todo:
                    x = todo.pop()
                    if x not in body:
                        body.add(x)
                        todo.extend(preds[x])
    b['_heads'] = heads
    b['_loops'] = loops
    b['_inner'] = {h: {g for g in heads if g != h and g in loops[h]} for h in heads}
    borrowed = set()

    def places(x, out):
        if isinstance(x, list):
            if len(x) == 2 and isinstance(x[0], int) and isinstance(x[1], list):
                out.append(x)
                for e in x[1]:
                    if e[0] == 'i':
                        out.append([e[1], []])
                return
            for y in x:
                places(y, out)
    use = [set() for _ in range(n)]
    dfn = [set() for _ in range(n)]
    for i, blk in enumerate(blocks):
        for s in blk['s']:
            if s[0] == '=':
                o = []
                rv = s[2]
                if rv[0] in ('ref', 'rawptr'):
                    pl = rv[1]
                    if not any(e[0] == '*' for e in pl[1]):
                        borrowed.add(pl[0])
                    places([pl], o)
                else:
                    ops(rv, o)
                for p in o:
                    if p[0] not in dfn[i]:
                        use[i].add(p[0])
                    for e in p[1]:
                        if e[0] == 'i' and e[1] not in dfn[i]:
                            use[i].add(e[1])
                if s[1][1]:
                    if s[1][0] not in dfn[i]:
                        use[i].add(s[1][0])
                    for e in s[1][1]:
                        if e[0] == 'i' and e[1] not in dfn[i]:
                            use[i].add(e[1])
                else:
                    dfn[i].add(s[1][0])
            elif s[0] == 'dead':
                dfn[i].add(s[1])
            elif s[0] in ('setdiscr',):
                if s[1][0] not in dfn[i]:
                    use[i].add(s[1][0])
            elif s[0] == 'assume':
                o = []
                ops(s[1:], o)
                for p in o:
                    if p[0] not in dfn[i]:
                        use[i].add(p[0])
        t = blk['t']
        o = []
        d = None
        if t[0] == 'switch':
            ops([t[1]], o)
        elif t[0] == 'call':
            ops(t[2], o)
            if t[1][0] == 'op':
                ops([t[1][1]], o)
            if t[3][1]:
                o.append(t[3])
            else:
                d = t[3][0]
        elif t[0] == 'drop':
            o.append(t[1])
        elif t[0] == 'assert':
            ops([t[1]], o)
        elif t[0] == 'return':
            o.append([0, []])
        for p in o:
            if p[0] not in dfn[i]:
                use[i].add(p[0])
            for e in p[1]:
                if e[0] == 'i' and e[1] not in dfn[i]:
                    use[i].add(e[1])
        if d is not None:
            dfn[i].add(d)
    live = [set() for _ in range(n)]
    changed = True
    while changed:
        changed = False
        for i in reversed(range(n)):
            out = set()
            for v in succ[i]:
                out |= live[v]
            new = use[i] | (out - dfn[i])
            if new != live[i]:
                live[i] = new
                changed = True
    b['_live'] = live
    b['_borrowed'] = borrowed


def ops(x, out):
    """collect places of operands/rvalues"""
    if not isinstance(x, list) or not x:
        return
    if x[0] in ('c', 'm') and len(x) == 2 and isinstance(x[1], list):
        out.append(x[1])
        return
    if x[0] == 'k':
        return
    if x[0] == 'discr':
        out.append(x[1])
        return
    if x[0] in ('ref', 'rawptr') and len(x) >= 2 and isinstance(x[1], list) and x[1] and isinstance(x[1][0], int):
        out.append(x[1])
        return
    for y in x:
        ops(y, out)
