"""C12, C13: what a client sees when it enumerates the provided polygon lists (harness::walk and harness::index_*)."""
from common import *
from models import MODELS
import sizes


class Walk(object):
    def __init__(self, srv, root, **kw):
        self.root = root
        self.run = Run(srv, 'harness::' + root, **kw)
        self.me, self.st = self.run.me, self.run.st
        self.good = 0
        self.me.handlers = [self.opaque_deref, self.seen, self.iterator, lookups]
        self.calls = 0

    def check(self, st, ok, what, span=None, *soft):
        if ok is True:
            self.good += 1
        elif ok is False and not any(self.me.soft(x) for x in soft):
            self.me.report(st, '%s: %s' % (self.root, what), span)
            raise PathEnd('reported')
        else:
            self.me.unproved(st, '%s: %s' % (self.root, what), span)
            raise PathEnd('open')

    def opaque_deref(self, me, st, fr, t, i, vi, args):
        """Deref of a container known only by its bound: the same slice every time"""
        if i['kind'] != 'unresolved' or trait_of(i, vi) != 'Deref' or i['name'] != 'deref':
            return None
        ty = me.place(st, fr, t[3])[2]
        return me.result(st, fr, t, me.mkref(ty, K('app', 'deref', args[0])))

    def items(self, args0):
        """the slice behind the container argument"""
        me = self.me
        k = K('app', 'deref', args0)
        for cell, ty in me.celltype.items():
            if cell == ('d', Sym(k, None)):
                return cell
        return ('d', Sym(k, None))

    def seen(self, me, st, fr, t, i, vi, args):
        if i['kind'] != 'unresolved' or trait_of(i, vi) != 'Seen':
            return None
        f = getattr(self, 'on_' + i['name'])
        f(st, [a for a in args[1:]], t[6])
        return unit_result(me, st, fr, t)

    def iterator(self, me, st, fr, t, i, vi, args):
        return None

    def go(self, args):
        try:
            self.run.start(args)
        except Undecided as e:
            self.me.undecided.append(str(e))
        return self


class Nested(Walk):
    """polygon by polygon, vertex by vertex"""
    flat = False

    def prepare(self):
        me, st = self.me, self.st
        self.p = self.run.arg(0, 'p')
        st.ghost = dict(o=ZERO, i=ZERO, last=(), n=ZERO)
        self.slice = Ref(('d', Sym(K('app', 'deref', self.p), None)))
        return [self.p, self.run.arg(1, 's')]

    def length(self, st):
        return self.me.asvec(self.me.read(st, self.slice.cell, ())).length()

    def polygon(self, o):
        return Ref(self.slice.cell, (('i', o),))

    def count(self, st, o):
        return Lin.sym(K('app', 'vertex_count', self.polygon(o)))

    def opened(self, st):
        """has the slice been looked at at all"""
        return self.slice.cell in st.mem or self.slice.cell in self.me.celltype

    def ready(self, st):
        if not self.opened(st):
            self.check(st, False, 'an item is produced before the polygons are looked at')

    def on_vertex(self, st, a, span):
        me, g = self.me, st.ghost
        self.ready(st)
        x = deref(me, st, a[0])
        if isinstance(x, Sym):
            x = me.expand(x, None, st)
        if not isinstance(x, Agg) or len(x.f) != 2:
            return self.check(st, None, 'index %r not understood' % (x,), span)
        o, i = g['o'], g['i']
        r = me.same(st, x.f[0], o)
        k = 0
        while r is False and k < 3:
            # polygons that are exhausted and need no marker: empty ones
            if not (st.known_eq(self.count(st, o), ZERO) and st.known_eq(i, ZERO)):
                break
            o, i = o + 1, ZERO
            r = me.same(st, x.f[0], o)
            k += 1
        self.check(st, r, 'vertex %r is produced where polygon %r was due' % (x, o), span, x.f[0], o)
        self.check(st, me.same(st, x.f[1], i), 'vertex %r is produced where vertex %r of the polygon was due' % (x, i), span, x.f[1], i)
        self.check(st, True if st.entails(o + 1 - self.length(st)) else False, 'vertex %r may belong to no polygon' % (x,), span, o)
        self.check(st, True if st.entails(i + 1 - self.count(st, o)) else False, 'vertex %r may be beyond the end of its polygon' % (x,), span, i)
        g['o'], g['i'] = o, i + 1
        g['last'] = (self.polygon(o), i)

    def on_looked(self, st, a, span):
        me = self.me
        d, i = st.ghost['last']
        st.ghost['last'] = ()
        want = Ref(('d', Sym(K('app', 'get_vertex', d, i), None)))
        self.check(st, True if a[0] == want else me.same(st, a[0], want), 'the index produced looks up %r, not the vertex at that position' % (a[0],), span)

    def on_boundary(self, st, a, span):
        me, g = self.me, st.ghost
        self.ready(st)
        o, i = g['o'], g['i']
        if not st.le(o + 1 - self.length(st)):
            return
        if st.eqint(i, self.count(st, o)):
            g['o'], g['i'] = o + 1, ZERO
            return
        self.check(st, True if st.known_eq(i, ZERO) else False, 'a boundary marker is produced in the middle of polygon %r' % (o,), span, i)

    def on_end(self, st, a, span):
        g = st.ghost
        self.ready(st)
        o, i = g['o'], g['i']
        n = self.length(st)
        if st.known_eq(o, n):
            return self.check(st, True, '')
        if st.known_eq(o + 1, n) and st.known_eq(i, self.count(st, o)):
            return self.check(st, True, '')
        self.check(st, False, 'the enumeration ends at polygon %r, vertex %r' % (o, i), span, o, i)


class Flat(Nested):
    """one polygon: every vertex of the slice"""

    def on_vertex(self, st, a, span):
        me, g = self.me, st.ghost
        self.ready(st)
        x = deref(me, st, a[0])
        self.check(st, me.same(st, x, g['i']), 'vertex %r is produced where vertex %r was due' % (x, g['i']), span, x, g['i'])
        self.check(st, True if st.entails(g['i'] + 1 - self.length(st)) else False, 'vertex %r may be beyond the end' % (x,), span, g['i'])
        g['last'] = (None, g['i'])
        g['i'] = g['i'] + 1

    def on_looked(self, st, a, span):
        me = self.me
        want = Ref(self.slice.cell, (('i', st.ghost['last'][1]),))
        st.ghost['last'] = ()
        self.check(st, True if a[0] == want else me.same(st, a[0], want), 'the index produced looks up %r, not the vertex at that position' % (a[0],), span)

    def on_boundary(self, st, a, span):
        self.check(st, False, 'a boundary marker inside a single polygon', span)

    def on_end(self, st, a, span):
        i = st.ghost['i']
        self.ready(st)
        self.check(st, True if st.known_eq(i, self.length(st)) else False, 'the enumeration ends at vertex %r' % (i,), span, i)


class Source(Walk):
    """an opaque list or polygon wrapped by the code under analysis: everything it yields comes out, in order"""
    wrap = None

    def prepare(self):
        me, st = self.me, self.st
        self.p = self.run.arg(0, 'p')
        st.ghost = dict(item=(), due=(), last=())
        return [self.p, self.run.arg(1, 's')]

    def inner(self, st, a):
        return a

    def iterator(self, me, st, fr, t, i, vi, args):
        if i['kind'] != 'unresolved':
            return None
        tr = trait_of(i, vi)
        if tr in ('Polygon', 'PolygonList') and i['name'] == 'iter_indices':
            self.check(st, me.same(st, args[0], self.self_ref(st)), 'the iterator is taken from something else', t[6])
            return None
        if tr == 'Iterator' and i['name'] == 'next':
            ty = me.place(st, fr, t[3])[2]
            self.check(st, not st.ghost['due'], 'an item of the wrapped list does not come out', t[6])
            r = me.mk(ty, fresh('item'))
            st.ghost['due'] = (r,)
            return me.result(st, fr, t, r)
        return None

    def self_ref(self, st):
        return inside(self, 0)

    def take(self, st, span, what):
        d = st.ghost['due']
        self.check(st, bool(d), '%s comes out without an item of the wrapped list' % what, span)
        if self.me.variant(st, d[0]) == 0:
            return 'end'
        return self.me.expand(d[0], None, st).f[0]

    def on_vertex(self, st, a, span):
        me = self.me
        x = deref(me, st, a[0])
        d = self.take(st, span, 'a vertex')
        self.check(st, False if d == 'end' else me.same(st, x, d), 'vertex %r comes out where %r was due' % (x, d), span)
        st.ghost['due'] = ()
        st.ghost['last'] = (x,)

    def on_looked(self, st, a, span):
        me = self.me
        got = a[0]
        ok = False
        if isinstance(got, Ref) and isinstance(got.cell, tuple) and got.cell[0] == 'd' and not got.path:
            k = KEYS[got.cell[1].k]
            if k[0] == 'app' and k[1] == 'get_vertex':
                ok = me.same(st, k[2], self.self_ref(st))
                if ok is True:
                    ok = me.same(st, k[3], st.ghost['last'][0])
        self.check(st, ok, 'the index produced looks up %r, not the vertex of the wrapped list' % (got,), span)

    def on_boundary(self, st, a, span):
        self.check(st, False, 'a boundary marker comes out of a single polygon', span)

    def on_end(self, st, a, span):
        d = self.take(st, span, 'the end')
        self.check(st, d == 'end', 'the enumeration ends where %r was due' % (d,), span)


class Value(Walk):
    """a function of the argument"""

    def __init__(self, srv, root, want, nargs, **kw):
        Walk.__init__(self, srv, root, **kw)
        self.want = want
        self.nargs = nargs

    def prepare(self):
        self.args = [self.run.arg(n, 'a%d' % n) for n in range(self.nargs)]
        self.me.on_final = lambda st, v: self.fin(st, v)
        self.st.ghost = dict(k=ZERO, sum=ZERO)
        return self.args

    def fin(self, st, v):
        try:
            self.want(self, st, v)
        except PathEnd:
            pass


class Sum(Value):
    """the count of a nested list: every polygon's count added once"""

    def iterator(self, me, st, fr, t, i, vi, args):
        if i['kind'] == 'unresolved' and trait_of(i, vi) == 'Polygon' and i['name'] == 'vertex_count':
            g = st.ghost
            sl = ('d', Sym(K('app', 'deref', self.args[0]), None))
            a = args[0]
            while isinstance(a, Ref) and isinstance(me.read(st, a.cell, a.path), Ref):
                a = me.read(st, a.cell, a.path)
            if isinstance(a, Ref) and a.cell == sl and len(a.path) == 1 and a.path[0][0] == 'i':
                r = me.same(st, a.path[0][1], g['k']) if isinstance(g['k'], Lin) else None
                c = Lin.sym(K('app', 'vertex_count', a))
                if r is not True:
                    # another order: settled for lists of known length only
                    g['k'] = Sym(K('in', 'other order'), None)
                    return me.result(st, fr, t, c)
                g['sum'] = g['sum'] + c
                g['k'] = g['k'] + 1
                return me.result(st, fr, t, c)
        return None


class Index(Walk):
    """a polygon list with substituted index type around an opaque list: items come out in order, every index component
    converted by TryInto, a failed conversion never yields anything"""

    def __init__(self, srv, root, shape, n, **kw):
        Walk.__init__(self, srv, root, **kw)
        self.shape, self.n = shape, n
        self.me.on_final = self.fin
        self.what = root.split('::')[1]
        if shape == 'vec' and self.me.delay > n + 2:
            # the loop over the items joins at once, the loops over the components do not
            self.me.delay_of = lambda fr, bb: 0 if self.me.inst(fr.inst)['krate'] == 'harness' else self.me.delay
        self.label = '%s%s' % (root, ', %d components' % n if shape == 'vec' else '')

    def prepare(self):
        me, st = self.me, self.st
        names = dict(iterate=('p', 's'), count=('p',), get=('p', 'i', 's'))[self.what]
        self.args = [self.run.arg(n, x) for n, x in enumerate(names)]
        self.p = me.expand(self.args[0], None, st).f[0]
        if self.what == 'get' and self.shape == 'vec':
            ty = self.run.argty(1)
            self.args[1] = VecV(ty, [('e', me.mk(me.T(ty)['args'][0], K('in', 'c%d' % j))) for j in range(self.n)])
        st.ghost = dict(due=(), looked=())
        return self.args

    def comps(self, v):
        me = self.me
        if self.shape == 'scalar':
            return [v]
        if self.shape == 'vec':
            v = me.asvec(v)
            if any(c[0] != 'e' for c in v.ch) or v.w:
                return None
            return [c[1] for c in v.ch]
        x = v if isinstance(v, (Agg, VecV)) else me.expand(v, None, self.st)
        if isinstance(x, VecV) or x is None:
            x = me.asvec(x if x is not None else v)
            if any(c[0] != 'e' for c in x.ch):
                # a fixed number of elements of an opaque array
                c = x.ch[0]
                return [me.mk(c[4], K('el', Sym(c[1], None), Lin(j))) for j in range(self.n)]
            return [c[1] for c in x.ch]
        return list(x.f)

    def iterator(self, me, st, fr, t, i, vi, args):
        if i['kind'] != 'unresolved':
            return None
        tr, n = trait_of(i, vi), i['name']
        ty = me.place(st, fr, t[3])[2]
        if tr == 'PolygonList' and n == 'iter_indices':
            self.check(st, me.same(st, deref(me, st, args[0]), self.p), 'another list is enumerated', t[6])
            return me.result(st, fr, t, me.mk(ty, K('in', 'iterator')))
        if tr == 'PolygonList' and n == 'vertex_count':
            self.check(st, me.same(st, deref(me, st, args[0]), self.p), 'the vertices of another list are counted', t[6])
            return me.result(st, fr, t, me.mk(ty, K('in', 'count')))
        if tr == 'PolygonList' and n == 'get_vertex':
            self.check(st, me.same(st, deref(me, st, args[0]), self.p), 'a vertex of another list is looked up', t[6])
            st.ghost['looked'] = st.ghost['looked'] + (args[1],)
            return me.result(st, fr, t, me.mk(ty, K('in', 'vertex')))
        if tr == 'Iterator' and n == 'next':
            self.check(st, not st.ghost['due'], 'an item of the wrapped list does not come out', t[6])
            r = me.mk(ty, fresh('item'))
            st.ghost['due'] = (r,)
            return me.result(st, fr, t, r)
        if tr in ('Into', 'From') and n in ('into', 'from'):
            tt = me.T(ty)
            if tt['k'] == 'adt' and tt['raw'].endswith('PolygonElement'):
                x = me.mk(ty, K('app', 'into', args[0]))
                self.elty = ty
                if self.shape != 'vec':
                    return me.result(st, fr, t, x)
                if me.variant(st, x) == 1:
                    return me.result(st, fr, t, me.expand(x, None, st))
                vt = tt['variants'][0]['fields'][0][1]
                e = me.T(vt)['args'][0]
                v = VecV(vt, [('e', me.mk(e, K('app', 'component', args[0], Lin(j)))) for j in range(self.n)])
                return me.result(st, fr, t, Agg(ty, 0, [v]))
        if tr in ('TryInto', 'TryFrom') and n in ('try_into', 'try_from'):
            return me.result(st, fr, t, me.mk(ty, K('app', 'try_into', args[0])))
        return None

    def item(self, st):
        """the item due: None at the end, () for a boundary, else the components"""
        me = self.me
        d = st.ghost['due'][0]
        if me.variant(st, d) == 0:
            return None
        x = me.expand(d, None, st).f[0]
        return x

    def element(self, st, x):
        """(is boundary, components) of the wrapped list's item"""
        me = self.me
        k = K('app', 'into', x)
        v = st.var.get(k)
        if isinstance(v, int):
            if v == 1:
                return True, None
            return False, x
        return None, x

    def converted_to(self, st, span, old, new):
        """new is the component-wise successful conversion of old"""
        me = self.me
        self.check(st, None if new is None else len(old) == len(new), 'an index of %d components becomes one of %r' % (len(old), new and len(new)), span)
        for j, (c, d) in enumerate(zip(old, new)):
            k = K('app', 'try_into', c)
            ok = False
            if isinstance(d, Sym):
                y = KEYS[d.k]
                if y[0] == 'fld' and isinstance(y[1], Sym):
                    ok = y[1].k == k
            self.check(st, ok, 'component %d becomes %r' % (j, d), span)
            o = st.var.get(k)
            # joined paths may have forgotten the outcome
            self.check(st, o == 0 if isinstance(o, int) else None, 'component %d of an index whose conversion %s comes out' % (
                j, 'failed' if o == 1 else 'was not examined'), span, c)

    def on_converted(self, st, a, span):
        me = self.me
        if not st.ghost['due']:
            return self.check(st, False, 'an index comes out without an item of the wrapped list', span)
        x = self.item(st)
        if x is None:
            return self.check(st, False, 'an index comes out at the end of the wrapped list', span)
        if 'polygon' in self.root:
            self.converted_to(st, span, [x], [a[0]])
            st.ghost['due'] = ()
            return
        b, x = self.element(st, x)
        self.check(st, b is False, 'an index comes out where %s was due' % ('a boundary' if b else 'the item was not examined'), span)
        if self.shape == 'vec':
            old = [Sym(K('app', 'component', x, Lin(j)), None) for j in range(self.n)]
        else:
            k = K('app', 'into', x)
            old = self.components_of(st, k, x)
        self.converted_to(st, span, old, self.comps(a[0]))
        st.ghost['due'] = ()

    def components_of(self, st, k, x):
        me = self.me
        e = me.expand(Sym(k, self.elty), None, st).f[0]
        return self.comps(e)

    def on_boundary(self, st, a, span):
        if not st.ghost['due']:
            return self.check(st, False, 'a boundary comes out without an item of the wrapped list', span)
        x = self.item(st)
        if x is None:
            return self.check(st, False, 'a boundary comes out at the end of the wrapped list', span)
        b, x = self.element(st, x)
        self.check(st, b is True, 'a boundary comes out where an index was due', span)
        st.ghost['due'] = ()

    def on_end(self, st, a, span):
        if not st.ghost['due']:
            return self.check(st, False, 'the end comes before the end of the wrapped list', span)
        self.check(st, self.item(st) is None, 'the end comes where an item was due', span)
        st.ghost['due'] = ()

    def on_looked(self, st, a, span):
        me = self.me
        l = st.ghost['looked']
        self.check(st, len(l) == 1, 'the wrapped list is asked for %d vertices' % len(l), span)
        self.check(st, a[0] == self.vertex(), 'the vertex found is replaced by %r' % (a[0],), span)
        self.converted_to(st, span, self.comps(self.args[1]), self.comps(l[0]))
        st.ghost['looked'] = ()

    def vertex(self):
        return Ref(('d', Sym(K('in', 'vertex'), None)))

    def fin(self, st, v):
        if self.what != 'count':
            return
        try:
            self.check(st, self.me.same(st, v, Lin.sym(K('in', 'count'))), 'the vertex count becomes %r' % (v,))
        except PathEnd:
            pass


def inside(w, n):
    """the polygon in lists::Any"""
    r = w.p if hasattr(w, 'p') else w.args[n]
    return Ref(r.cell, r.path + (('f', None, 0),))


def is_count(w, st, v):
    want = Lin.sym(K('app', 'vertex_count', inside(w, 0)))
    w.check(st, w.me.same(st, v, want), 'the vertex count is %r' % (v,))


def is_len(w, st, v):
    n = w.me.asvec(w.me.read(st, ('d', Sym(K('app', 'deref', w.args[0]), None)), ())).length()
    w.check(st, w.me.same(st, v, n), 'the vertex count is %r, not the number of vertices %r' % (v, n))


def settled(st, v):
    """element positions that the facts fix, as numbers"""
    if not isinstance(v, Lin):
        return v
    r = Lin(v.c)
    for k, n in v.t:
        key = KEYS[k]
        if key[0] == 'app' and isinstance(key[2], Ref) and len(key[2].path) == 1 and key[2].path[0][0] == 'i':
            x = key[2].path[0][1]
            for j in range(4):
                if st.known_eq(x, Lin(j)):
                    k = K(*(key[:2] + (Ref(key[2].cell, (('i', Lin(j)),)),) + key[3:]))
        r = r + Lin(0, ((k, n),))
    return r


def is_sum(w, st, v):
    g = st.ghost
    cell = ('d', Sym(K('app', 'deref', w.args[0]), None))
    n = w.me.asvec(w.me.read(st, cell, ())).length() if cell in w.me.celltype else None
    if n is None:
        return w.check(st, False, 'the polygons are not looked at')
    for j in range(4):
        if st.known_eq(n, Lin(j)):
            want = Lin(0)
            for q in range(j):
                want = want + Lin.sym(K('app', 'vertex_count', Ref(cell, (('i', Lin(q)),))))
            return w.check(st, w.me.same(st, settled(st, v), want), 'the vertex count of %d polygons is %r' % (j, v))
    if not isinstance(g['k'], Lin):
        return w.check(st, None, 'polygons counted in another order')
    w.check(st, w.me.same(st, v, g['sum']), 'the vertex count is %r, the polygons have %r' % (v, g['sum']), None)
    w.check(st, w.me.same(st, g['k'], n), 'only %r of %r polygons are counted' % (g['k'], n), None)


def ref_is(w, st, v, want, what):
    w.check(st, True if v == want else w.me.same(st, v, want), what % (v,))


def is_vertex(w, st, v):
    sl = ('d', Sym(K('app', 'deref', w.args[0]), None))
    d = Ref(sl, (('i', w.args[1]),))
    ref_is(w, st, v, Ref(('d', Sym(K('app', 'get_vertex', d, w.args[2]), None))), 'the lookup answers %r')


def is_element(w, st, v):
    ref_is(w, st, v, Ref(('d', Sym(K('app', 'deref', w.args[0]), None)), (('i', w.args[1]),)), 'the lookup answers %r')


def is_same(w, st, v):
    ref_is(w, st, v, Ref(('d', Sym(K('app', 'get_vertex', inside(w, 0), w.args[1]), None))), 'the lookup answers %r')


def is_continue(w, st, v):
    v = v if isinstance(v, Agg) else w.me.expand(v, None, st)
    if v is None:
        return w.check(st, None, 'the result is not known')
    w.check(st, False if v.v != 0 else w.me.same(st, v.f[0], w.args[0]), 'an index becomes %r' % (v,))


def is_option(w, st, v):
    me = w.me
    o = st.var.get(w.args[0].k) if isinstance(w.args[0], Sym) else w.args[0].v
    if not isinstance(o, int):
        return w.check(st, False, 'Some and None are not told apart: %r' % (v,))
    v = v if isinstance(v, Agg) else me.expand(v, None, st)
    if v is None:
        return w.check(st, None, 'the result is not known')
    x = me.expand(w.args[0], None, st)
    ok = (v.v == 1) if o == 0 else False if v.v != 0 else me.same(st, v.f[0], x.f[0])
    w.check(st, ok, '%s becomes %r' % ('Some' if o else 'None', v))


def settle(ctx, w):
    me = w.me
    name = getattr(w, 'label', w.root)
    ctx.absorb(me, w.good, name)
    for v in me.violations:
        ctx.bad('%s/%s' % (name, v['what'].split(': ', 1)[-1][:60]), v['what'], v['span'], v['trace'])
    for v in me.proof_failed:
        ctx.open(v['what'])
    if not w.good and not me.violations:
        ctx.open('%s: no check reached' % w.root)
    ctx.sample(dict(client=name, checks=w.good, paths=me.paths, fixpoint_joins=me.joins))


def check13(ctx, srv):
    jobs = [(Nested, 'lists::nested', None), (Flat, 'lists::flat', None), (Source, 'lists::single', None),
            (Sum, 'lists::nested_count', (is_sum, 1)), (Value, 'lists::nested_get', (is_vertex, 3)),
            (Value, 'lists::flat_count', (is_len, 1)), (Value, 'lists::flat_get', (is_element, 2)),
            (Value, 'lists::single_count', (is_count, 1)), (Value, 'lists::single_get', (is_same, 2)),
            (Value, 'lists::from_index', (is_continue, 1)), (Value, 'lists::from_option', (is_option, 1))]
    for c, root, extra in jobs:
        for delay in (0, 3):
            w = c(srv, root, *(extra or ()), deadline=time.time() + ctx.left() / 3, delay=delay)
            w.go(w.prepare())
            if not w.me.violations and not w.me.proof_failed and not w.me.undecided and w.good:
                break
        settle(ctx, w)


def check12(ctx, srv):
    jobs = []
    for shape, n in (('scalar', 1), ('array1', 1), ('array2', 2), ('array3', 3), ('pair', 2), ('triple', 3)):
        jobs += [('index_%s::%s' % (shape, w), shape, n) for w in ('iterate', 'count', 'get')]
    jobs.append(('index_vec::count', 'vec', 0))
    upto = 9 if ctx.tier == 'quick' else 33
    # longer vectors at the numbers the code mentions
    near, far = sizes.turns(srv, [r['inst'] for r in srv.roots() if r['raw'].startswith('harness::index_vec::')], upto, 1200, ('triangulate', 'harness'))
    for x in far:
        ctx.open('the code compares with %d: vectors of that many components are not analysed' % x)
    ctx.sample(dict(numbers_compared_beyond_exhaustive_sizes=near + far))
    for n in sorted(set(range(upto)) | {17, 40} | {x + d for x in near for d in (0, 1)}):
        jobs += [('index_vec::%s' % w, 'vec', n) for w in ('iterate', 'get')]
    jobs.append(('index_polygon::iterate', 'scalar', 1))
    for root, shape, n in jobs:
        for delay in (3 * n + 10, n + 2, 0)[:3 if n < 9 else 1] if shape == 'vec' else (0, 3):
            w = Index(srv, root, shape, n, deadline=time.time() + ctx.left() / 3, delay=delay, **(dict(limit=4000000) if n > 4 else {}))
            w.go(w.prepare())
            if not w.me.violations and not w.me.proof_failed and not w.me.undecided and w.good:
                break
        settle(ctx, w)
