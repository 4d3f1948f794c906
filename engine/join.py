"""Joining and subsumption of abstract states at loop heads.

join(A, B): the least general common generalisation (anti-unification) of two states of the same shape: equal parts
stay, pairs of differing parts become one fresh symbol per distinct pair (so equalities between program variables, ghost
history and containers survive), integers that differ by a constant become affine in one iteration counter.
subsumes(S, N): is N an instance of S?"""
from values import *
from core import State, Undecided, PathEnd, Split, B

MAXJOIN = 14
DEBUG = False


class Mismatch(Exception):
    pass


class Entry(object):
    __slots__ = ('st', 'own', 'n')

    def __init__(self, st, own, n):
        self.st, self.own, self.n = st, own, n


# ------------------------------------------------------------------ canonical states
def parts(st):
    r = set()
    for d in (st.var, st.bl):
        for k in d:
            key = KEYS[k]
            while key[0] == 'fld':
                r.add(key[1].k)
                key = KEYS[key[1].k]
    return r


def canon(me, st, v, pf):
    if isinstance(v, Sym):
        if v.ty is None:
            return v
        if v.k in st.bl:
            return B(st.bl[v.k])
        x = None
        if isinstance(st.var.get(v.k), int):
            x = me.expand(v, None, st)
        elif v.k in pf:
            x = me.expand(v, None, st)
        return v if x is None else canon(me, st, x, pf)
    if isinstance(v, Agg):
        f = tuple(canon(me, st, x, pf) for x in v.f)
        return v if all(a is b for a, b in zip(f, v.f)) else Agg(v.ty, v.v, f)
    if isinstance(v, Lin):
        if v.t and st.cons:
            # pinned to a constant?
            if len(v.t) == 1:
                c = pinned(st, v)
                if c is not None:
                    return Lin(c)
        return v
    if isinstance(v, VecV):
        ch = []
        for c in v.ch:
            if c[0] == 'e':
                ch.append(('e', canon(me, st, c[1], pf)))
            elif c[3].t and st.known_eq(c[3], ZERO) or c[3].const() == 0:
                continue
            else:
                ch.append(c)
        v = VecV(v.ty, ch, [(i, canon(me, st, x, pf)) for i, x in v.w], v.tag)
        n = me.norm_seq(st, v)
        return v if n is None else VecV(v.ty, n, (), v.tag)
    return v


def pinned(st, v):
    """constant value forced by the facts, if it is visible as an upper bound"""
    k, co = v.t[0]
    for l in st.cons:
        if len(l.t) == 1 and l.t[0][0] == k and l.t[0][1] > 0:
            ub = (-l.c) // l.t[0][1]
            if 0 <= ub <= 64 and st.entails(Lin(ub) - Lin.sym(k)):
                return v.c + co * ub
    return None


def roots(me, st):
    """[(cell, type)] live in the frames"""
    r = []
    for n, f in enumerate(st.frames):
        top = n == len(st.frames) - 1
        body = f.body
        if top:
            live = body['_live'][f.bb]
        else:
            g = st.frames[n + 1]
            live = set(body['_live'][g.ret]) if g.ret is not None and g.cont is None else set(range(len(body['locals'])))
            if g.dest is not None and g.cont is None and g.dest[0] == (f.uid, 0):
                pass
        for i in range(len(body['locals'])):
            c = (f.uid, i)
            if c in st.mem and (i in live or i in body['_borrowed']):
                r.append((c, body['locals'][i]))
    return r


def cells_of(v, out):
    if isinstance(v, Ref):
        out.append(v.cell)
    elif isinstance(v, Agg):
        for x in v.f:
            cells_of(x, out)
    elif isinstance(v, VecV):
        for c in v.ch:
            if c[0] == 'e':
                cells_of(c[1], out)
        for _, x in v.w:
            cells_of(x, out)
    elif isinstance(v, tuple):
        for x in v:
            cells_of(x, out)


def tidy(me, st):
    """canonical values, unreachable cells and facts dropped; dead locals removed (in place)"""
    pf = parts(st)
    rts = roots(me, st)
    keep = set()
    todo = [c for c, _ in rts]
    for v in st.ghost.values():
        cells_of(v, todo)
    # dests of pending frames
    for f in st.frames:
        if f.dest is not None:
            todo.append(f.dest[0])
    while todo:
        c = todo.pop()
        if c in keep:
            continue
        keep.add(c)
        if c in st.mem:
            cells_of(st.mem[c], todo)
    mem = {}
    for c in keep:
        if c in st.mem:
            mem[c] = canon(me, st, st.mem[c], pf)
    st.mem = mem
    for k, v in st.ghost.items():
        st.ghost[k] = canon(me, st, v, pf)
    live = set()
    for v in mem.values():
        live |= bases(v)
    for c in mem:
        if c[0] == 'd':
            live |= bases(c[1])
    for v in st.ghost.values():
        live |= bases(v)
    live |= {k for k in me.pinned_keys}

    def ok(k):
        return BASE[k] <= live
    st.var = {k: x for k, x in st.var.items() if ok(k)}
    st.bl = {k: x for k, x in st.bl.items() if ok(k)}
    st.od = {p: x for p, x in st.od.items() if ok(p[0]) and ok(p[1])}
    st.cons = frozenset(project(st.cons, live))


def project(cons, live):
    """eliminate symbols that are no longer mentioned"""
    dead = set()
    for l in cons:
        for k, _ in l.t:
            if not BASE[k] <= live:
                dead.add(k)
    cur = set(cons)
    for k in dead:
        pos, neg, rest = [], [], set()
        for l in cur:
            v = dict(l.t).get(k, 0)
            if v > 0:
                pos.append((v, l))
            elif v < 0:
                neg.append((-v, l))
            else:
                rest.add(l)
        neg.append((1, Lin(0, ((k, -1),))))
        if len(pos) * len(neg) <= 16:
            for a, l in pos:
                for b, m in neg:
                    n = l.mul(b) + m.mul(a)
                    if n.t:
                        rest.add(n)
        cur = rest
    return cur


# ------------------------------------------------------------------ join
class Joiner(object):
    def __init__(self, me, A, Bs, aown=frozenset()):
        self.me, self.A, self.B, self.aown = me, A, Bs, aown
        self.memo = {}
        self.vmemo = {}
        self.kappa = None
        self.own = set()
        self.cells = {}
        self.todo = []
        self.ints = []
        self.symp = {}

    def fresh(self, tag):
        k = fresh(tag)
        self.own.add(k)
        me = self.me
        me.joinsyms.add(k)
        return k

    def lin(self, a, b):
        if a == b:
            self.ints.append((a, a, b))
            return a
        key = ('L', a, b)
        r = self.memo.get(key)
        if r is not None:
            return r
        d = b - a
        c = d.const()
        if c is not None:
            if self.kappa is None:
                self.kappa = self.fresh('k')
            r = a + Lin(0, ((self.kappa, c),))
        else:
            r = self.composite_lin(a, b)
            if r is None:
                for (x, y), j in [((k[1], k[2]), v) for k, v in self.memo.items() if k[0] == 'L']:
                    if a - x == b - y:
                        r = j + (a - x)
                        break
                else:
                    r = Lin.sym(self.fresh('n'))
        self.memo[key] = r
        self.ints.append((r, a, b))
        return r

    def composite_lin(self, a, b):
        if len(a.t) == 1 and len(b.t) == 1 and a.c == b.c and a.t[0][1] == b.t[0][1] == 1:
            k = self.composite(a.t[0][0], b.t[0][0])
            if k is not None:
                return Lin(a.c, ((k, 1),))
        return None

    def composite(self, ka, kb):
        x, y = KEYS[ka], KEYS[kb]
        if x[0] != y[0] or len(x) != len(y) or x[0] in ('fresh', 'in'):
            return None
        out = []
        for p, q in zip(x, y):
            if p == q:
                out.append(p)
            elif isinstance(p, Lin) and isinstance(q, Lin):
                out.append(self.lin(p, q))
            elif isinstance(p, Sym) and isinstance(q, Sym):
                r = self.sym(p, q)
                if not isinstance(r, Sym):
                    return None
                out.append(r)
            elif isinstance(p, Ref) and isinstance(q, Ref):
                r = self.ref(p, q)
                if r is None:
                    return None
                out.append(r)
            else:
                return None
        return K(*out)

    def ref(self, p, q):
        """references to places of the same kind, element indices generalised"""
        if len(p.path) != len(q.path):
            return None
        c = p.cell
        if p.cell != q.cell:
            if not (p.cell[0] == q.cell[0] == 'd' and isinstance(p.cell[1], Sym) and isinstance(q.cell[1], Sym)):
                return None
            k = self.composite(p.cell[1].k, q.cell[1].k)
            if k is None:
                return None
            c = ('d', Sym(k, p.cell[1].ty))
        path = []
        for x, y in zip(p.path, q.path):
            if x == y:
                path.append(x)
            elif x[0] == y[0] == 'i' and isinstance(x[1], Lin) and isinstance(y[1], Lin):
                path.append(('i', self.lin(x[1], y[1])))
            else:
                return None
        return Ref(c, tuple(path))

    def known(self, ka, kb):
        """the joint term of two terms, if it needs no new generator"""
        own, memo, ints, kappa, symp = set(self.own), dict(self.memo), list(self.ints), self.kappa, dict(self.symp)
        try:
            k = self.composite(ka, kb)
        except Mismatch:
            k = None
        if k is None or self.own != own:
            self.own, self.memo, self.ints, self.kappa, self.symp = own, memo, ints, kappa, symp
            return None
        return k

    def sym(self, a, b):
        if a.k == b.k:
            return a
        key = ('S', a.k, b.k)
        r = self.memo.get(key)
        if r is None:
            k = self.composite(a.k, b.k)
            if k is not None:
                r = Sym(k, a.ty)
            elif a.ty is None:
                r = Sym(self.fresh('j'), None)
            else:
                r = self.me.mk(a.ty, self.fresh('j'))
                if not isinstance(r, Sym):
                    raise Mismatch('sym')
                self.symp[r.k] = (a.k, b.k)
            self.memo[key] = r
        return r

    def val(self, a, b, ty=None):
        if a is UNDEF or b is UNDEF or a is None or b is None:
            if a is b:
                return a
            return UNDEF
        if isinstance(a, Lin) and isinstance(b, Lin):
            if a != b and ty is not None and self.me.T(ty)['k'] in ('bool', 'char'):
                raise Mismatch('bool')
            return self.lin(a, b)
        if isinstance(a, Agg) and isinstance(b, Sym) and b.ty is not None:
            x = self.me.expand(b, None, self.B)
            if x is None:
                raise Mismatch('variant')
            b = x
        elif isinstance(b, Agg) and isinstance(a, Sym) and a.ty is not None:
            x = self.me.expand(a, None, self.A)
            if x is None:
                raise Mismatch('variant')
            a = x
        if isinstance(a, Agg) and isinstance(b, Agg):
            if a.v != b.v or len(a.f) != len(b.f):
                raise Mismatch('variant')
            t = a.ty if a.ty is not None else ty
            fs = [None] * len(a.f)
            if t is not None and a.f:
                try:
                    fs = self.me.fields(t, a.v if isinstance(a.v, int) else 0)
                except Undecided:
                    pass
                if len(fs) != len(a.f):
                    fs = [None] * len(a.f)
            return Agg(a.ty, a.v, [self.val(x, y, f) for x, y, f in zip(a.f, b.f, fs)])
        if isinstance(a, Sym) and isinstance(b, Sym):
            if a.k != b.k and a.ty is not None and self.me.T(a.ty)['k'] == 'bool':
                pass
            return self.sym(a, b)
        if isinstance(a, Ref) and isinstance(b, Ref):
            if len(a.path) != len(b.path):
                raise Mismatch('path')
            path = []
            for p, q in zip(a.path, b.path):
                if p == q:
                    path.append(p)
                elif p[0] == q[0] in ('i', 'sub'):
                    path.append((p[0],) + tuple(self.lin(x, y) for x, y in zip(p[1:], q[1:])))
                else:
                    raise Mismatch('path')
            return Ref(self.cell(a.cell, b.cell), tuple(path))
        if isinstance(a, VecV) and isinstance(b, VecV):
            return self.vec(a, b)
        if isinstance(a, tuple) and isinstance(b, tuple):
            if len(a) != len(b):
                raise Mismatch('tuple')
            return tuple(self.val(x, y) for x, y in zip(a, b))
        if a == b:
            return a
        raise Mismatch('kind')

    def cell(self, a, b):
        r = self.cells.get((a, b))
        if r is None:
            if a == b:
                r = a
            elif a[0] == 'd' and b[0] == 'd' and isinstance(a[1], Sym) and isinstance(b[1], Sym):
                s = self.sym(a[1], b[1])
                r = ('d', s)
                if self.me.celltype.get(a) is not None:
                    self.me.celltype[r] = self.me.celltype[a]
                # an untouched target stays lazily defined
            else:
                r = ('j', self.fresh('cell'))
            self.cells[(a, b)] = r
            self.todo.append((a, b, r))
        return r

    def vec(self, a, b):
        if a == b:
            for c in a.ch:
                self.val(c[1], c[1]) if c[0] == 'e' else None
            return a
        key = ('V', a.ch, a.w, b.ch, b.w)
        r = self.vmemo.get(key)
        if r is not None:
            return VecV(a.ty, r, (), a.tag)
        if a.w or b.w:
            if len(a.w) == len(b.w) and a.ch == b.ch:
                w = [(self.lin(i, j), self.val(x, y)) for (i, x), (j, y) in zip(a.w, b.w)]
                return VecV(a.ty, a.ch, w, a.tag)
            raise Mismatch('overrides')
        x, y = list(a.ch), list(b.ch)
        pre, suf = [], []
        while x and y:
            c, d = x[0], y[0]
            if c[0] == 's' and c[1] in self.aown and x != y:
                break
            if c == d:
                pre.append(c)
                x.pop(0)
                y.pop(0)
            elif c[0] == d[0] == 's' and c[1] == d[1] and c[2] == d[2] and len(x) == 1 and len(y) == 1:
                pre.append(('s', c[1], c[2], self.lin(c[3], d[3]), c[4]))
                x.pop(0)
                y.pop(0)
            elif c[0] == d[0] == 's' and c[1] == d[1] and len(x) == 1 and len(y) == 1 and \
                    self.A.known_eq(c[2] + c[3], c[2] + c[3]) and (c[2] + c[3]) == (d[2] + d[3]):
                o = self.lin(c[2], d[2])
                pre.append(('s', c[1], o, c[2] + c[3] - o, c[4]))
                x.pop(0)
                y.pop(0)
            else:
                break
        while x and y and x[-1] == y[-1] and not (x[-1][0] == 's' and x[-1][1] in self.aown):
            suf.insert(0, x.pop())
            y.pop()
        if len(x) == len(y) and all(c[0] == 'e' for c in x + y) and len(x) <= 4:
            mid = [('e', self.val(c[1], d[1])) for c, d in zip(x, y)]
        elif not x and not y:
            mid = []
        else:
            k2 = ('R', tuple(x), tuple(y))
            mid = self.vmemo.get(k2)
            if mid is None:
                ety = None
                for c in x + y:
                    if c[0] == 's':
                        ety = c[4]
                    elif isinstance(c[1], (Sym, Agg, VecV)):
                        ety = c[1].ty
                    if ety is not None:
                        break
                if ety is None and a.ty is not None:
                    t = self.me.T(a.ty)
                    ety = t['args'][0] if t['k'] == 'adt' and t['args'] else t.get('elem')
                if ety is None and all(c[0] == 'e' and isinstance(c[1], Ref) for c in a.ch + b.ch):
                    raise Mismatch('run of references')
                la, lb = VecV(None, x).length(), VecV(None, y).length()
                k = self.fresh('run')
                # contents may hold owned values that matter (references): keep it opaque
                mid = [('s', k, ZERO, self.lin(la, lb), ety)]
                self.vmemo[k2] = mid
        r = tuple(pre + mid + suf)
        self.vmemo[key] = r
        return VecV(a.ty, r, (), a.tag)


def transport(k, x, alts):
    """the term k with the element index x replaced, for each alternative: (joint, in A, in B)"""
    out = []
    for y in (alts[2], alts[0], alts[1]):
        hit = False
        key = []
        for p in KEYS[k]:
            if isinstance(p, Ref) and any(q[0] == 'i' and q[1] == x for q in p.path):
                p = Ref(p.cell, tuple(('i', y) if q[0] == 'i' and q[1] == x else q for q in p.path))
                hit = True
            key.append(p)
        if not hit:
            return None
        out.append(Lin.sym(K(*key)))
    return tuple(out)


def join(me, A, Bs, aown=frozenset()):
    """generalisation of A and B or None if the shapes differ"""
    if len(A.frames) != len(Bs.frames):
        return None
    for f, g in zip(A.frames, Bs.frames):
        if f.uid != g.uid or f.bb != g.bb:
            return None
    J = Joiner(me, A, Bs, aown)
    S = State()
    S.frames = [f.copy() for f in Bs.frames]
    S.act = dict(Bs.act)
    S.trace = Bs.trace
    S.joined = max(A.joined, Bs.joined) + 1
    try:
        if set(A.ghost) != set(Bs.ghost):
            return None
        for k in sorted(A.ghost):
            S.ghost[k] = J.val(A.ghost[k], Bs.ghost[k])
        ra, rb = dict(roots(me, A)), dict(roots(me, Bs))
        for c in sorted(set(ra) | set(rb), key=repr):
            if c in ra and c in rb:
                J.cells[(c, c)] = c
                J.todo.append((c, c, c))
        for f in Bs.frames:
            if f.dest is not None:
                c = f.dest[0]
                if (c, c) not in J.cells and c in A.mem and c in Bs.mem:
                    J.cells[(c, c)] = c
                    J.todo.append((c, c, c))
        tys = dict(ra)
        done = {}
        while J.todo:
            a, b, r = J.todo.pop(0)
            if a == b and r not in A.mem and r not in Bs.mem:
                continue
            if a[0] == 'd' and b[0] == 'd' and a not in A.mem and b not in Bs.mem:
                continue
            va, vb = me.load(A, a), me.load(Bs, b)
            v = J.val(va, vb, tys.get(a))
            if r in done and done[r] != v:
                raise Mismatch('aliasing')
            done[r] = v
        S.mem = {c: v for c, v in done.items() if v is not UNDEF}
    except Mismatch as e:
        return None
    # facts
    cons = set()
    for l in A.cons:
        if Bs.entails(l):
            cons.add(l)
    for l in Bs.cons:
        if l not in cons and A.entails(l):
            cons.add(l)
    extra = []
    if J.own:
        # terms that only the facts mention, with the parts they share with the state generalised in the same way
        fa = {k for l in A.cons for k, _ in l.t if KEYS[k][0] in ('app', 'len', 'el')}
        fb = {k for l in Bs.cons for k, _ in l.t if KEYS[k][0] in ('app', 'len', 'el')}
        extra = [(Lin.sym(k), Lin.sym(k), Lin.sym(k)) for k in sorted(fa ^ fb)[:12]]
        for ka in sorted(fa)[:12]:
            for kb in sorted(fb)[:12]:
                if KEYS[ka][0] == KEYS[kb][0] and len(KEYS[ka]) == len(KEYS[kb]) and KEYS[ka][1:2] == KEYS[kb][1:2] or ka == kb:
                    k = ka if ka == kb else J.known(ka, kb)
                    if k is not None:
                        extra.append((Lin.sym(k), Lin.sym(ka), Lin.sym(kb)))
        prs = [(k[1], k[2], r) for k, r in J.memo.items() if k[0] == 'L']
        for side, ks in ((0, fa), (1, fb)):
            for k in sorted(ks)[:12]:
                for pr in prs[:8]:
                    x = transport(k, pr[side], pr)
                    if x is not None and x not in extra:
                        extra.append(x)
    ints, seen = [], set()
    for r, a, b in J.ints:
        if r not in seen:
            seen.add(r)
            ints.append((r, a, b))
    changed = [x for x in ints if any(BASE[k] & J.own for k in x[0].syms())]
    base = list(ints) + [(ZERO, ZERO, ZERO)]
    T = State()
    T.cons = frozenset(cons)
    for r, a, b in changed:
        for q, c, d in base:
            for sgn in (1, -1):
                l = (r - q).mul(sgn)
                if l.const() is not None or T.entails(l):
                    continue
                if sgn > 0 and q.const() is not None:
                    continue  # widening: no constant upper bounds
                if A.entails((a - c).mul(sgn)) and Bs.entails((b - d).mul(sgn)):
                    cons.add(l)
                    T.cons = frozenset(cons)
        for q, c, d in extra:
            l = r - q
            if l.const() is None and not T.entails(l) and A.entails(a - c) and Bs.entails(b - d):
                cons.add(l)
                T.cons = frozenset(cons)
    S.cons = frozenset(cons)
    S.var = {k: x for k, x in A.var.items() if Bs.var.get(k) == x}
    S.bl = {k: x for k, x in A.bl.items() if Bs.bl.get(k) == x}
    for p, x in A.od.items():
        if p in Bs.od:
            n = x | Bs.od[p]
            if n != frozenset('<=>u'):
                S.od[p] = n
    # order and equality facts between generalised symbols
    sp = list(J.symp.items()) + [(k, (k, k)) for k in {q for p in A.od for q in p}]
    for i, (j1, (a1, b1)) in enumerate(sp):
        for j2, (a2, b2) in sp[i + 1:]:
            if j1 == j2 or (j1 == a1 and j2 == a2):
                continue
            ra, rb = A.rel(a1, a2), Bs.rel(b1, b2)
            n = ra | rb
            if n != frozenset('<=>u'):
                x, y = j1, j2
                if y < x:
                    x, y = y, x
                    n = frozenset({'<': '>', '>': '<'}.get(z, z) for z in n)
                S.od[(x, y)] = n
    S.bl.update(me.join_bools(A, Bs, J))
    return S, J.own


# ------------------------------------------------------------------ generators that only occur together
class Merge(object):
    """replace a+b by c everywhere (a and b are free generators that occur nowhere apart)"""

    def __init__(self, a, b, c):
        self.a, self.b, self.c = a, b, c
        self.hit = frozenset((a, b))
        self.memo = {}

    def key(self, k):
        if not BASE[k] & self.hit:
            return k
        r = self.memo.get(k)
        if r is None:
            if k == self.a or k == self.b:
                raise Mismatch('apart')
            r = self.memo[k] = K(*[self.val(x) for x in KEYS[k]])
        return r

    def val(self, v):
        if isinstance(v, Lin):
            if not bases(v) & self.hit:
                return v
            r = Lin(v.c)
            ca = cb = 0
            for k, n in v.t:
                if k == self.a:
                    ca = n
                elif k == self.b:
                    cb = n
                else:
                    r = r + Lin(0, ((self.key(k), n),))
            if ca != cb:
                raise Mismatch('apart')
            return r + Lin(0, ((self.c, ca),)) if ca else r
        if isinstance(v, Sym):
            return Sym(self.key(v.k), v.ty)
        if isinstance(v, Agg):
            return Agg(v.ty, v.v, [self.val(x) for x in v.f])
        if isinstance(v, Ref):
            return Ref(self.val(v.cell), self.val(v.path)) if bases(v) & self.hit else v
        if isinstance(v, VecV):
            if not bases(v) & self.hit:
                return v
            ch = [('e', self.val(c[1])) if c[0] == 'e' else ('s', self.key(c[1]), self.val(c[2]), self.val(c[3])) + tuple(c[4:]) for c in v.ch]
            return VecV(v.ty, ch, [(self.val(i), self.val(x)) for i, x in v.w], v.tag)
        if isinstance(v, tuple):
            return tuple(self.val(x) for x in v)
        return v


def gather(v, own, out, seen):
    """the integer expressions over own generators; False if one occurs other than as a term of a sum"""
    if isinstance(v, Lin):
        d = {}
        for k, n in v.t:
            if k in own:
                d[k] = n
            else:
                gather_key(k, own, out, seen)
        if d:
            out.append(d)
    elif isinstance(v, Sym):
        gather_key(v.k, own, out, seen)
    elif isinstance(v, Agg):
        for x in v.f:
            gather(x, own, out, seen)
    elif isinstance(v, Ref):
        gather(v.cell, own, out, seen)
        gather(v.path, own, out, seen)
    elif isinstance(v, VecV):
        for c in v.ch:
            if c[0] == 'e':
                gather(c[1], own, out, seen)
            else:
                gather_key(c[1], own, out, seen)
                gather(c[2], own, out, seen)
                gather(c[3], own, out, seen)
        for i, x in v.w:
            gather(i, own, out, seen)
            gather(x, own, out, seen)
    elif isinstance(v, tuple):
        for x in v:
            gather(x, own, out, seen)


def gather_key(k, own, out, seen):
    if k in own:
        out.append({k: None})
        return
    if k in seen or not BASE[k] & own:
        return
    seen.add(k)
    for x in KEYS[k]:
        gather(x, own, out, seen)


def merge_generators(me, S, own):
    """two generators that occur only as their sum are one generator: keeps repeated joins of a counter with its successor
    from piling up symbols"""
    own = {k for k in own if KEYS[k][0] == 'fresh' and KEYS[k][1] in ('k', 'n')}
    while True:
        live = own
        if len(live) < 2:
            return
        out, seen = [], set()
        for c, v in S.mem.items():
            gather(v, own, out, seen)
            if c[0] == 'd':
                gather(c[1], own, out, seen)
        for v in S.ghost.values():
            gather(v, own, out, seen)
        sig = {}
        for n, d in enumerate(out):
            for k, co in d.items():
                sig.setdefault(k, []).append((n, co))
        by = {}
        pair = None
        for k in sorted(sig):
            if any(co is None for _, co in sig[k]):
                continue
            t = tuple(sig[k])
            if t in by:
                pair = (by[t], k)
                break
            by[t] = k
        if pair is None:
            return
        c = fresh(KEYS[pair[1]][1])
        me.joinsyms.add(c)
        M = Merge(pair[0], pair[1], c)
        try:
            mem = {}
            for x, v in S.mem.items():
                mem[M.val(x) if x[0] == 'd' else x] = M.val(v)
            ghost = {g: M.val(v) for g, v in S.ghost.items()}
        except Mismatch:
            return
        S.mem, S.ghost = mem, ghost
        cons = set()
        for l in S.cons:
            try:
                cons.add(M.val(l))
            except Mismatch:
                pass
        S.cons = frozenset(cons)

        def keys(d):
            r = {}
            for k, x in d.items():
                try:
                    r[tuple(M.key(q) for q in k) if isinstance(k, tuple) else M.key(k)] = x
                except Mismatch:
                    pass
            return r
        S.var, S.bl = keys(S.var), keys(S.bl)
        S.od = {(k if k[0] <= k[1] else (k[1], k[0])): (x if k[0] <= k[1] else frozenset({'<': '>', '>': '<'}.get(z, z) for z in x))
                for k, x in keys(S.od).items()}
        own.discard(pair[0])
        own.discard(pair[1])
        own.add(c)
        yield c


# ------------------------------------------------------------------ subsumption
class Matcher(object):
    def __init__(self, me, S, N, own):
        self.me, self.S, self.N, self.own = me, S, N, own
        self.sub = {}      # own base key -> Sym / Lin (scalar)
        self.runs = {}     # own run key -> tuple of chunks
        self.eqs = []
        self.cells = {}
        self.todo = []

    def isown(self, k):
        return bool(BASE[k] & self.own)

    def fail(self, why=''):
        raise Mismatch(why)

    def lin(self, s, n):
        if not any(self.isown(k) for k in s.syms()):
            if s != n and not self.N.known_eq(s, n):
                self.fail('lin')
            return
        if len(s.t) == 1 and s.t[0][0] not in self.own and s.t[0][1] == 1:
            m = n - s.c
            if len(m.t) == 1 and m.c == 0 and m.t[0][1] == 1 and KEYS[m.t[0][0]][0] == KEYS[s.t[0][0]][0]:
                return self.key(s.t[0][0], m.t[0][0])
        self.eqs.append((s, n))

    def key(self, ks, kn):
        if ks == kn and not self.isown(ks):
            return
        if ks in self.own:
            self.bind(ks, Sym(kn, None))
            return
        x, y = KEYS[ks], KEYS[kn]
        if not self.isown(ks) or x[0] != y[0] or len(x) != len(y):
            self.fail('key')
        for p, q in zip(x, y):
            if p == q and not bases(p) & self.own:
                continue
            if isinstance(p, Lin) and isinstance(q, Lin):
                self.lin(p, q)
            elif isinstance(p, Sym) and isinstance(q, Sym):
                self.key(p.k, q.k)
            else:
                self.fail('key part')

    def bind(self, k, v):
        o = self.sub.get(k)
        if o is None:
            self.sub[k] = v
        elif o != v:
            if isinstance(o, Lin) and isinstance(v, Lin) and self.N.known_eq(o, v):
                return
            self.fail('bind')

    def val(self, s, n):
        if s is UNDEF or s is None:
            return
        if n is UNDEF or n is None:
            self.fail('undef')
        if isinstance(s, Lin) and isinstance(n, Lin):
            return self.lin(s, n)
        if isinstance(s, Agg):
            if isinstance(n, Sym) and n.ty is not None:
                x = self.me.expand(n, None, self.N)
                if x is not None:
                    n = x
            if not isinstance(n, Agg) or s.v != n.v or len(s.f) != len(n.f):
                self.fail('agg')
            for x, y in zip(s.f, n.f):
                self.val(x, y)
            return
        if isinstance(s, Sym):
            if isinstance(n, Sym):
                return self.key(s.k, n.k)
            self.fail('sym')
        if isinstance(s, Ref) and isinstance(n, Ref):
            if len(s.path) != len(n.path):
                self.fail('path')
            for p, q in zip(s.path, n.path):
                if p[0] != q[0] or len(p) != len(q):
                    self.fail('path')
                for x, y in zip(p[1:], q[1:]):
                    if isinstance(x, Lin):
                        self.lin(x, y)
                    elif x != y:
                        self.fail('path')
            self.cell(s.cell, n.cell)
            return
        if isinstance(s, VecV) and isinstance(n, VecV):
            return self.vec(s, n)
        if isinstance(s, tuple) and isinstance(n, tuple) and len(s) == len(n):
            for x, y in zip(s, n):
                self.val(x, y)
            return
        if s != n:
            self.fail('value')

    def cell(self, a, b):
        o = self.cells.get(a)
        if o is not None:
            if o != b:
                self.fail('alias')
            return
        self.cells[a] = b
        if a != b and a[0] == 'd' and b[0] == 'd':
            self.key(a[1].k, b[1].k)
        self.todo.append((a, b))

    def chunk(self, c, d):
        if c[0] != d[0]:
            self.fail('chunk')
        if c[0] == 'e':
            self.val(c[1], d[1])
        else:
            if c[1] != d[1]:
                self.key(c[1], d[1])
            self.lin(c[2], d[2])
            self.lin(c[3], d[3])

    def ownrun(self, c):
        return c[0] == 's' and c[1] in self.own and c[2] == ZERO

    def vec(self, s, n):
        if s.w or n.w:
            if len(s.w) != len(n.w) or len(s.ch) != len(n.ch):
                self.fail('overrides')
            for c, d in zip(s.ch, n.ch):
                self.chunk(c, d)
            for (i, x), (j, y) in zip(s.w, n.w):
                self.lin(i, j)
                self.val(x, y)
            return
        p, t = list(s.ch), list(n.ch)
        while p and t and not self.ownrun(p[0]):
            if p[0][0] == 's' and t[0][0] == 's' and p[0][1] == t[0][1] and not self.same_len(p[0], t[0]) and len(p) == 1 and len(t) == 1:
                self.chunk(p.pop(0), t.pop(0))
                continue
            self.chunk(p.pop(0), t.pop(0))
        while p and t and not self.ownrun(p[-1]):
            self.chunk(p.pop(), t.pop())
        if not p:
            if t:
                self.fail('longer')
            return
        if not all(self.ownrun(c) for c in p):
            self.fail('shape')
        while p:
            c = p[0]
            b = self.runs.get(c[1])
            if b is not None:
                if not self.prefix(b, t):
                    self.fail('run')
                t = t[len(b):]
                p.pop(0)
                self.lin(c[3], VecV(None, b).length())
                continue
            if len(p) > 1:
                # the later runs may be bound already
                d = self.runs.get(p[-1][1])
                if d is not None and (not d or tuple(t[len(t) - len(d):]) == tuple(d)):
                    self.lin(p[-1][3], VecV(None, d).length())
                    t = t[:len(t) - len(d)]
                    p.pop()
                    continue
                self.fail('two runs')
            self.runs[c[1]] = tuple(t)
            self.lin(c[3], VecV(None, t).length())
            p.pop(0)
            t = []
        if t:
            self.fail('rest')

    def same_len(self, c, d):
        return c[3] == d[3]

    def prefix(self, b, t):
        return len(b) <= len(t) and all(x == y for x, y in zip(b, t))

    def solve(self):
        todo = list(self.eqs)
        while todo:
            rest = []
            prog = False
            for s, n in todo:
                rigid, flex = Lin(s.c), []
                for k, c in s.t:
                    if k in self.lsub:
                        rigid = rigid + self.lsub[k].mul(c)
                    else:
                        k2 = self.subst_key(k)
                        if k2 is None:
                            flex.append((k, c))
                        else:
                            rigid = rigid + Lin(0, ((k2, c),))
                if not flex:
                    if not self.N.known_eq(rigid, n):
                        self.fail('eq %r %r' % (rigid, n))
                    prog = True
                    continue
                if len(flex) == 1 and flex[0][0] in self.own:
                    k, c = flex[0]
                    r = n - rigid
                    if any(x % c for _, x in r.t) or r.c % c:
                        self.fail('not integral')
                    q = Lin(r.c // c, tuple((a, b // c) for a, b in r.t))
                    if not self.N.entails(-q):
                        self.fail('negative')
                    self.lsub[k] = q
                    prog = True
                    continue
                rest.append((s, n))
            if not prog and not self.guess(rest):
                self.fail('underdetermined')
            todo = rest

    def guess(self, eqs):
        """an equation with several free counters: let all but one stand for themselves"""
        for s, n in eqs:
            rigid, flex = Lin(s.c), []
            for k, c in s.t:
                if k in self.lsub:
                    rigid = rigid + self.lsub[k].mul(c)
                else:
                    k2 = self.subst_key(k)
                    if k2 is None:
                        flex.append((k, c))
                    else:
                        rigid = rigid + Lin(0, ((k2, c),))
            if not all(k in self.own for k, _ in flex):
                continue
            for k, c in sorted(flex, key=lambda p: -abs(p[1])):
                r = n - rigid
                for k2, c2 in flex:
                    if k2 != k:
                        r = r - Lin(0, ((k2, c2),))
                if any(x % c for _, x in r.t) or r.c % c:
                    continue
                q = Lin(r.c // c, tuple((a, b // c) for a, b in r.t))
                if not self.N.entails(-q):
                    continue
                for k2, c2 in flex:
                    if k2 != k:
                        self.lsub[k2] = Lin.sym(k2)
                self.lsub[k] = q
                return True
        return False

    def subst_lin(self, p):
        if not any(self.isown(x) for x in p.syms()):
            return p
        q = Lin(p.c)
        for x, c in p.t:
            if x in self.lsub:
                q = q + self.lsub[x].mul(c)
            else:
                y = self.subst_key(x)
                if y is None:
                    return None
                q = q + Lin(0, ((y, c),))
        return q

    def subst_key(self, k):
        """the key with own symbols replaced, None if something is unbound"""
        if not self.isown(k):
            return k
        if k in self.own:
            v = self.sub.get(k)
            if isinstance(v, Sym):
                return v.k
            return None
        out = []
        for p in KEYS[k]:
            if isinstance(p, Lin):
                p = self.subst_lin(p)
                if p is None:
                    return None
            elif isinstance(p, Ref):
                c, path = p.cell, []
                if isinstance(c, tuple) and c[0] == 'd' and isinstance(c[1], Sym):
                    y = self.subst_key(c[1].k)
                    if y is None:
                        return None
                    c = ('d', Sym(y, c[1].ty))
                elif bases(c) & self.own:
                    return None
                for q in p.path:
                    q = tuple(self.subst_lin(z) if isinstance(z, Lin) else z for z in q)
                    if any(z is None for z in q) and q[0] != 'f' or any(bases(z) & self.own for z in q if not isinstance(z, Lin)):
                        return None
                    path.append(q)
                p = Ref(c, tuple(path))
            elif isinstance(p, Sym):
                y = self.subst_key(p.k)
                if y is None:
                    return None
                p = Sym(y, p.ty)
            elif bases(p) & self.own:
                return None
            out.append(p)
        return K(*out)


def subsumes(me, E, N):
    S = E.st
    if len(S.frames) != len(N.frames):
        return False
    for f, g in zip(S.frames, N.frames):
        if f.uid != g.uid or f.bb != g.bb:
            return False
    M = Matcher(me, S, N, E.own)
    M.lsub = {}
    try:
        if set(S.ghost) != set(N.ghost):
            return False
        # own symbols in N denote N's own instances: rename the pattern's symbols apart
        for k in sorted(S.ghost):
            M.val(S.ghost[k], N.ghost[k])
        for c, _ in roots(me, S):
            if c not in N.mem:
                if S.mem.get(c) is not None:
                    return False
            M.cells[c] = c
            M.todo.append((c, c))
        for f in S.frames:
            if f.dest is not None and f.dest[0] in S.mem and f.dest[0] not in M.cells:
                M.cells[f.dest[0]] = f.dest[0]
                M.todo.append((f.dest[0], f.dest[0]))
        while M.todo:
            a, b = M.todo.pop(0)
            if a not in S.mem and b not in N.mem:
                continue
            M.val(me.load(S, a), me.load(N, b))
        # pattern symbols bound by equations; they are distinct from N's symbols of the same name
        M.solve()
        for l in S.cons:
            v = Lin(l.c)
            for k, c in l.t:
                if k in M.lsub:
                    v = v + M.lsub[k].mul(c)
                elif M.isown(k):
                    k2 = M.subst_key(k)
                    if k2 is None:
                        if k in E.own:
                            return False
                        return False
                    v = v + Lin(0, ((k2, c),))
                else:
                    v = v + Lin(0, ((k, c),))
            if not N.entails(v):
                return False
        for d, e in ((S.var, N.var), (S.bl, N.bl)):
            for k, x in d.items():
                k2 = M.subst_key(k)
                if k2 is None or e.get(k2) != x:
                    return False
        for (a, b), x in S.od.items():
            a2, b2 = M.subst_key(a), M.subst_key(b)
            if a2 is None or b2 is None or not N.rel(a2, b2) <= x:
                return False
    except Mismatch as e:
        if DEBUG:
            print('not subsumed:', e)
        return False
    return True


def at_head(me, st, aid):
    tidy(me, st)
    es = me.table.setdefault(aid, [])
    for e in es:
        if subsumes(me, e, st):
            me.subsumed += 1
            return False
    fr = st.frames[-1]
    for n, e in enumerate(es):
        if e.n > MAXJOIN:
            raise Undecided('no fixpoint at a loop in %s' % me.inst(fr.inst)['full'])
        r = join(me, e.st, st, e.own)
        if r is None:
            continue
        S, own = r
        # symbols of earlier joins here that are still mentioned stay generalisable
        tidy(me, S)
        made = set(merge_generators(me, S, own | e.own))
        if made:
            own = own | made
            tidy(me, S)
        live = set()
        for v in S.mem.values():
            live |= bases(v)
        for v in S.ghost.values():
            live |= bases(v)
        for c in S.mem:
            if c[0] == 'd':
                live |= bases(c[1])
        es[n] = Entry(S.copy(), (own | e.own) & live, e.n + 1)
        if DEBUG:
            print('join', aid, e.n, 'ghost', S.ghost, 'cons', S.cons, 'own', [kstr(k) for k in es[n].own])
            for c, v in S.mem.items():
                print('    ', c, v)
        me.joins += 1
        st.__dict__.update(S.copy().__dict__)
        return True
    if len(es) > 60:
        raise Undecided('too many shapes at a loop in %s' % me.inst(fr.inst)['full'])
    es.append(Entry(st.copy(), set(), 0))
    return True
