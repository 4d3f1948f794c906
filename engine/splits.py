"""C21: what entering one vertex or one edge does to the regions, their links and the search structure.

Every local situation is enumerated: the regions the edge runs through, on which side it passes each vertex in between, and how many
edges are already joined to each of those vertices, upwards and downwards, in every combination. Coordinates, vertices, indices and
everything further away are opaque; the answers of the side test are those of the situation."""
from common import *
from order import Case, pick, base
import itertools
import random
import sizes

PAD = dict(ns=2, ss=3, ts=1, qs=4)
KINDS = (('asc',), ('desc',), ('asc', 'asc'), ('desc', 'desc'), ('asc', 'desc'))


class Wrong(Exception):
    pass


class Tables(object):
    """explicit tables with opaque contents"""

    def __init__(self, c, more=0):
        self.c, self.me, self.st = c, c.me, c.run.st
        me = self.me
        self.sty = me.T(c.run.argty(0))['elem']
        self.fields = self.names(self.sty)
        for n in PAD:
            if n not in self.fields:
                raise Undecided('table %s not found' % n)
        self.ety = {n: me.T(self.fields[n][1])['args'][0] for n in PAD}
        self.rows = {n: [me.mk(self.ety[n], K('in', '%s%d' % (n, j))) for j in range(PAD[n] + more)] for n in PAD}
        self.given = {}

    def names(self, ty, variant=0):
        return {f[0]: (j, f[1]) for j, f in enumerate(self.me.T(ty)['variants'][variant]['fields'])}

    def field(self, ty, name, variant=0):
        f = self.names(ty, variant)
        if name not in f:
            raise Undecided('field %s of %s not found' % (name, self.me.T(ty)['s']))
        return f[name]

    def variant(self, ty, name):
        for j, v in enumerate(self.me.T(ty)['variants']):
            if v['name'] == name:
                return j
        raise Undecided('variant %s of %s not found' % (name, self.me.T(ty)['s']))

    def idx(self, ty, k):
        me = self.me
        nz = me.T(ty)['variants'][0]['fields'][0][1]
        n = len(me.T(ty)['variants'][0]['fields'])
        return Agg(ty, 0, [Agg(nz, 0, [Lin(k + 1)])] + [UNDEF] * (n - 1))

    def option(self, ty, k):
        if k is None:
            return Agg(ty, 0, ())
        return Agg(ty, 1, [self.idx(self.me.T(ty)['args'][0], k)])

    def struct(self, ty, **kw):
        f = self.me.T(ty)['variants'][0]['fields']
        for n in kw:
            self.field(ty, n)
        return Agg(ty, 0, [kw[n[0]](n[1]) if n[0] in kw else UNDEF for n in f])

    def coords(self, ty, name):
        return self.me.mk(ty, K('in', name))

    def add(self, table, row):
        self.rows[table].append(row)
        return len(self.rows[table]) - 1

    def reserve(self, table, n=1):
        r = range(len(self.rows[table]), len(self.rows[table]) + n)
        self.rows[table].extend([None] * n)
        return list(r)

    def trapezoid(self, at, left, right, up, down, sink):
        o = lambda k: (lambda ty: self.option(ty, k))
        self.rows['ts'][at] = self.struct(self.ety['ts'], left=o(left), right=o(right), up=o(up), down=o(down), sink=lambda ty: self.idx(ty, sink))

    def segment(self, at, lo, hi):
        i = lambda k: (lambda ty: self.idx(ty, k))
        self.rows['ss'][at] = self.struct(self.ety['ss'], ni_min=i(lo), ni_max=i(hi), c_min=lambda ty: self.coords(ty, 'c%d' % lo), c_max=lambda ty: self.coords(ty, 'c%d' % hi))

    def sink(self, at, t):
        ty = self.ety['qs']
        v = self.variant(ty, 'Sink')
        self.rows['qs'][at] = Agg(ty, v, [self.idx(self.me.T(ty)['variants'][v]['fields'][0][1], t)])

    def nexus(self, at, upleft, downleft, dividers):
        me = self.me

        def divs(ty):
            v = ('Zero', 'One', 'Two')[len(dividers)]
            n = self.variant(ty, v)
            return Agg(ty, n, [self.divider(f[1], *d) for f, d in zip(me.T(ty)['variants'][n]['fields'], dividers)])
        i = lambda k: (lambda ty: self.idx(ty, k))
        self.rows['ns'][at] = self.struct(self.ety['ns'], vi=lambda ty: me.mk(ty, K('in', 'vi%d' % at)), c=lambda ty: self.coords(ty, 'c%d' % at),
                                          ti_upleft=i(upleft), ti_downleft=i(downleft), dividers=divs)

    def divider(self, ty, seg, direction, right):
        i = lambda k: (lambda ty: self.idx(ty, k))
        return self.struct(ty, si=i(seg), ti_right=i(right), direction=lambda ty: Agg(ty, self.variant(ty, dict(asc='Ascending', desc='Descending')[direction]), ()))

    def state(self):
        me = self.me
        v = []
        for n, ty in me.T(self.sty)['variants'][0]['fields']:
            if n in PAD:
                v.append(VecV(ty, [('e', r if r is not None else me.mk(self.ety[n], K('in', '%s%d' % (n, j)))) for j, r in enumerate(self.rows[n])]))
            else:
                v.append(me.mk(ty, K('in', n)))
        cell = ('arg', 0)
        self.st.mem[cell] = Agg(self.sty, 0, v)
        me.celltype[cell] = self.sty
        self.cell = cell
        return Ref(cell)


class After(object):
    """reading the tables when the function has returned"""

    def __init__(self, tab, st):
        self.tab, self.me, self.st = tab, tab.me, st
        s = self.value(st.mem[tab.cell])
        self.rows = {}
        for n in PAD:
            v = self.me.asvec(s.f[tab.fields[n][0]])
            if v.w or any(c[0] != 'e' for c in v.ch):
                raise Undecided('table %s is not known element by element' % n)
            self.rows[n] = [c[1] for c in v.ch]

    def value(self, v):
        if isinstance(v, Sym):
            x = self.me.expand(v, None, self.st)
            if x is None:
                raise Undecided('%r is not known' % (v,))
            return x
        if not isinstance(v, Agg):
            raise Undecided('%r is not known' % (v,))
        return v

    def num(self, v):
        for _ in range(6):
            if isinstance(v, Lin):
                if not v.t:
                    return v.c - 1
                break
            if not isinstance(v, Agg) or not v.f:
                break
            v = v.f[0]
        raise Undecided('position %r is not a number' % (v,))

    def get(self, v, ty, name, variant=0):
        return self.value(v).f[self.tab.field(ty, name, variant)[0]]

    def opt(self, v):
        v = self.value(v)
        return None if v.v == 0 else self.num(v.f[0])

    def trapezoid(self, k):
        ty = self.tab.ety['ts']
        r = self.rows['ts'][k]
        return {n: (self.num if n == 'sink' else self.opt)(self.get(r, ty, n)) for n in ('left', 'right', 'up', 'down', 'sink')}

    def node(self, k):
        if not 0 <= k < len(self.rows['qs']):
            raise Wrong('the search structure leads beyond its end')
        ty = self.tab.ety['qs']
        r = self.value(self.rows['qs'][k])
        return self.me.T(ty)['variants'][r.v]['name'], r

    def leaf(self, k):
        kind, r = self.node(k)
        return self.num(r.f[0]) if kind == 'Sink' else None

    def nexus(self, k):
        ty = self.tab.ety['ns']
        r = self.rows['ns'][k]
        d = self.value(self.get(r, ty, 'dividers'))
        divs = []
        for x, f in zip(d.f, self.me.T(d.ty)['variants'][d.v]['fields']):
            dv = self.value(self.get(x, f[1], 'direction'))
            divs.append((self.num(self.get(x, f[1], 'si')), dict(Ascending='asc', Descending='desc')[self.me.T(dv.ty)['variants'][dv.v]['name']], self.num(self.get(x, f[1], 'ti_right'))))
        return dict(upleft=self.num(self.get(r, ty, 'ti_upleft')), downleft=self.num(self.get(r, ty, 'ti_downleft')), divs=divs)


class Shape(object):
    """the regions an edge runs through from its upper to its lower end"""

    def __init__(self, tab, top, mids, bottom, fresh):
        self.tab, self.top, self.mids, self.bottom = tab, top, mids, bottom
        self.k = k = len(mids)
        self.sides = {}
        self.R = tab.reserve('ts', k + 1)
        self.sinkof = tab.reserve('qs', k + 1)[::-1]
        self.N = tab.reserve('ns', k + 2)[::-1]
        self.new = None
        self.before = {}
        spec = {}
        # borders: from the upper to the lower vertex of a run
        ends = [top] + [('L' if s == 'L' else 'R', kk) for s, kk in mids] + [bottom]
        seg = {}
        for side in 'LR':
            above, start = (0 if top == 'desc' + side else None), 0
            for j in range(1, k + 2):
                mid = j <= k
                if mid and mids[j - 1][0] != side:
                    continue
                asc = 'asc' in mids[j - 1][1] if mid else bottom == 'asc' + side
                if above is not None or asc or fresh:
                    s = tab.reserve('ss')[0]
                    hi = self.N[above] if above is not None else tab.reserve('ns')[0]
                    lo = self.N[j] if asc else tab.reserve('ns')[0]
                    tab.segment(s, lo, hi)
                    for x in ([hi] if above is None else []) + ([lo] if not asc else []):
                        self.far(x)
                    if above is not None:
                        seg[above, 'desc', side] = s
                    if asc:
                        seg[j, 'asc', side] = s
                else:
                    s = None
                for r in range(start, j):
                    spec.setdefault(r, {})[side] = s
                start = j
                above = j if mid and 'desc' in mids[j - 1][1] else None
        for r in range(k + 1):
            tab.trapezoid(self.R[r], spec[r]['L'], spec[r]['R'], self.N[r], self.N[r + 1], self.sinkof[r])
            tab.sink(self.sinkof[r], self.R[r])
        self.spec = spec
        # vertices
        for j in range(k + 2):
            if j == 0:
                side, kinds = ('L' if top == 'descL' else 'R'), ((top[:-1],) if top.startswith('desc') else (top,) if top == 'asc' else ())
            elif j == k + 1:
                side, kinds = ('L' if bottom == 'ascL' else 'R'), ((bottom[:-1],) if bottom.startswith('asc') else (bottom,) if bottom == 'desc' else ())
            else:
                side, kinds = mids[j - 1]
            up = [None] * (1 + kinds.count('asc'))
            down = [None] * (1 + kinds.count('desc'))
            if j > 0:
                up[-1 if side == 'L' else 0] = self.R[j - 1]
            if j <= k:
                down[-1 if side == 'L' else 0] = self.R[j]
            for l in (up, down):
                for x in range(len(l)):
                    if l[x] is None:
                        l[x] = tab.reserve('ts')[0]
            divs, count = [], dict(asc=0, desc=0)
            for d in kinds:
                l = dict(asc=up, desc=down)[d]
                count[d] += 1
                inner = count[d] == len(l) - 1 if side == 'L' else count[d] == 1
                s = seg.get((j, d, side)) if inner else None
                if s is None:
                    s = tab.reserve('ss')[0]
                    o = tab.reserve('ns')[0]
                    self.far(o)
                    tab.segment(s, *((self.N[j], o) if d == 'asc' else (o, self.N[j])))
                if j == 0 and d == 'desc' or j == k + 1 and d == 'asc':
                    # the other end of that edge, and on which side of it the other end of the new edge is
                    self.sides[s] = side
                divs.append((s, d, l[count[d]]))
            self.before[j] = dict(upleft=up[0], downleft=down[0], divs=divs)
            tab.nexus(self.N[j], up[0], down[0], divs)
            self.around(self.N[j], up, down, divs, self.R)

    def far(self, n):
        t = self.tab.reserve('ts', 2)
        self.tab.nexus(n, t[0], t[1], [])

    def around(self, n, up, down, divs, skip):
        """the other regions at a vertex: their borders are its edges; what lies beyond them is not known"""
        tab = self.tab
        outer = tab.reserve('ss', 2)
        for d, l in (('asc', up), ('desc', down)):
            segs = [s for s, e, _ in divs if e == d]
            for x, t in enumerate(l):
                if t in skip:
                    continue
                o, q = tab.reserve('ns')[0], tab.reserve('qs')[0]
                self.far(o)
                tab.sink(q, t)
                tab.trapezoid(t, segs[x - 1] if x else outer[0], segs[x] if x < len(segs) else outer[1], *((o, n, q) if d == 'asc' else (n, o, q)))

    def side(self, me, st, fr, t, i, vi, args):
        if i['krate'] != 'triangulate' or i['name'] != 'is_left_of_line' or len(args) != 3:
            return None
        a, b, p = [self.point(st, x) for x in args]
        r = None
        top, low = self.N[0], self.N[-1]
        if (a, b) == (low, top):
            if p in (low, top):
                r = False
            elif p in self.N:
                r = self.mids[self.N.index(p) - 1][0] == 'L'
            else:
                for s, side in self.sides.items():
                    if p in self.ends(s):
                        r = side == 'L'
        else:
            for s, side in self.sides.items():
                if (a, b) == self.ends(s) and p in (low, top):
                    r = False if p in (a, b) else side == 'R'
        if r is None:
            # about a point the edge does not pass: either answer
            return me.result(st, fr, t, B(me.truth(st, Sym(K('left', a, b, p), me.place(st, fr, t[3])[2]))))
        return me.result(st, fr, t, B(r))

    def ends(self, s):
        me, tab = self.tab.me, self.tab
        row = tab.rows['ss'][s]
        ty = tab.ety['ss']
        r = []
        for n in ('ni_min', 'ni_max'):
            r.append(row.f[tab.field(ty, n)[0]].f[0].f[0].c - 1)
        return tuple(r)

    def point(self, st, v):
        v = deref(self.tab.me, st, v)
        for n in range(len(self.tab.rows['ns'])):
            if v == self.tab.me.mk(self.cty, K('in', 'c%d' % n)) or self.tab.me.same(st, v, self.tab.me.mk(self.cty, K('in', 'c%d' % n))) is True:
                return n
        return repr(v)

    def eq(self, me, st, fr, t, i, vi, args):
        if i['name'] in ('eq', 'ne') and i['kind'] == 'unresolved' and len(args) == 2:
            a, b = deref(me, st, args[0]), deref(me, st, args[1])
            if isinstance(a, Sym) and isinstance(b, Sym):
                ka, kb = KEYS[a.k], KEYS[b.k]
                if ka[0] == kb[0] == 'in' and str(ka[1]).startswith('vi') and str(kb[1]).startswith('vi'):
                    return me.result(st, fr, t, B((a == b) == (i['name'] == 'eq')))
        return None

    def judge(self, st, v):
        """compare the tables with what they have to be"""
        tab, k, R, N = self.tab, self.k, self.R, self.N
        A = After(tab, st)
        v = A.value(v)
        if v.v != 0:
            raise Wrong('entering an edge into a consistent subdivision fails')
        nt, ns = len(tab.rows['ts']), len(tab.rows['ss'])
        if len(A.rows['ss']) != ns + 1:
            raise Wrong('%d edges are recorded for one' % (len(A.rows['ss']) - ns))
        si = ns
        # halves of the regions, as the search structure finds them
        half = {}
        for r in range(k + 1):
            kind, x = A.node(self.sinkof[r])
            if kind != 'Branch':
                raise Wrong('the search structure still leads to region %s as a whole' % self.name(r))
            b = A.value(x.f[2])
            bn = self.tab.me.T(b.ty)['variants'][b.v]['name']
            if bn != 'X' or [self.point(st, y) for y in b.f] != [N[-1], N[0]]:
                raise Wrong('the search structure divides region %s by %s, not by the new edge' % (self.name(r), bn))
            for side, child in (('L', x.f[0]), ('R', x.f[1])):
                q = A.num(child)
                t = A.leaf(q)
                if t is None:
                    raise Wrong('the search structure does not lead to the %s half of region %s' % (dict(L='left', R='right')[side], self.name(r)))
                half[r, side] = (t, q)
        # halves that are not separated by a vertex are one region
        groups = {}
        for side in 'LR':
            start = 0
            for r in range(1, k + 2):
                if r == k + 1 or self.mids[r - 1][0] == side:
                    groups[side, start, r - 1] = {half[x, side] for x in range(start, r)}
                    start = r
        where = {}
        for g, s in groups.items():
            text = self.text(g)
            if len(s) != 1:
                raise Wrong('%s becomes several regions: %s' % (text, sorted(s)))
            (t, q), = s
            for h, o in where.items():
                if o == t:
                    raise Wrong('%s and %s become the same region' % (self.text(h), text))
            where[g] = t
            if not (t in R or t == nt):
                raise Wrong('%s becomes a region that has nothing to do with it' % text)
            z = A.trapezoid(t)
            side, a, b = g
            want = dict(left=self.spec[a]['L'] if side == 'L' else si, right=si if side == 'L' else self.spec[a]['R'], up=N[a], down=N[b + 1], sink=q)
            for n in ('left', 'right', 'up', 'down', 'sink'):
                if z[n] != want[n]:
                    raise Wrong('the %s of %s is %r, not %r' % (dict(left='left border', right='right border', up='upper vertex', down='lower vertex', sink='leaf in the search structure')[n],
                                                                text, z[n], want[n]))
        if len(A.rows['ts']) != nt + 1:
            raise Wrong('%d regions are added for one edge' % (len(A.rows['ts']) - nt))

        def now(r, side):
            return [t for g, t in where.items() if g[0] == side and g[1] <= r <= g[2]][0]
        for j in range(k + 2):
            b, z = self.before[j], A.nexus(N[j])
            side = 'L' if j in (0, k + 1) else self.mids[j - 1][0]

            def moved(t):
                return now(R.index(t), side) if t in R else t
            want = dict(upleft=moved(b['upleft']), downleft=moved(b['downleft']), divs=[(s, d, moved(t)) for s, d, t in b['divs']])
            if j in (0, k + 1):
                d = 'desc' if j == 0 else 'asc'
                e = (si, d, now(0 if j == 0 else k, 'R'))
                if want['divs'] and want['divs'][0][1] == d:
                    first = self.sides[want['divs'][0][0]] == 'R'
                else:
                    first = d == 'asc'
                want['divs'] = [e] + want['divs'] if first else want['divs'] + [e]
            if z != want:
                raise Wrong('the %s is linked to %s, not %s' % ('upper end' if j == 0 else 'lower end' if j == k + 1 else 'vertex passed on its %s' % dict(L='right', R='left')[side], self.links(z), self.links(want)))
        self.rest(A, dict(ts=set(R), ns=set(N), qs=set(self.sinkof), ss=set()))
        return 5 * len(groups) + 2 * (k + 1) + k + 2

    def rest(self, A, touched):
        """nothing else changes"""
        for n in PAD:
            for j, old in enumerate(self.tab.rows[n]):
                if j in touched[n]:
                    continue
                if old is None:
                    old = self.tab.me.mk(self.tab.ety[n], K('in', '%s%d' % (n, j)))
                if A.rows[n][j] != old and self.tab.me.same(A.st, A.rows[n][j], old) is not True:
                    raise Wrong('%s that has nothing to do with it is changed' % dict(ts='a region', ns='a vertex', qs='a node of the search structure', ss='an edge')[n])

    def name(self, r):
        return '%d of %d' % (r + 1, self.k + 1)

    def text(self, g):
        return 'the %s half of region%s' % (dict(L='left', R='right')[g[0]], ' %d' % (g[1] + 1) if g[1] == g[2] else 's %d to %d' % (g[1] + 1, g[2] + 1))

    def links(self, z):
        return 'above %r, below %r, edges %r' % (z['upleft'], z['downleft'], z['divs'])

    def describe(self):
        return 'upper end with %s, %s, lower end with %s' % (
            self.top or 'no edge', 'passing ' + ' then '.join('%s of a vertex with %s' % (dict(L='right', R='left')[s], '+'.join(kk)) for s, kk in self.mids) if self.mids else 'nothing in between', self.bottom or 'no edge')


class Vertex(Shape):
    """one region, the vertex above it and the vertex below it (or none)"""

    def __init__(self, tab, above, below, deep, borders):
        self.tab, self.above, self.below, self.deep = tab, above, below, deep
        self.R = tab.reserve('ts')
        self.q = tab.reserve('qs', 3)
        self.before = {}
        self.at = {}
        for name, cfg in (('up', above), ('down', below)):
            if cfg is None:
                continue
            kinds, pos = cfg
            n = tab.reserve('ns')[0]
            up = tab.reserve('ts', 1 + kinds.count('asc'))
            down = tab.reserve('ts', 1 + kinds.count('desc'))
            l = down if name == 'up' else up
            l[pos] = self.R[0]
            divs, count = [], dict(asc=0, desc=0)
            for d in kinds:
                s, o = tab.reserve('ss')[0], tab.reserve('ns')[0]
                self.far(o)
                tab.segment(s, *((n, o) if d == 'asc' else (o, n)))
                count[d] += 1
                divs.append((s, d, dict(asc=up, desc=down)[d][count[d]]))
            self.at[name] = n
            self.before[name] = dict(upleft=up[0], downleft=down[0], divs=divs)
            tab.nexus(n, up[0], down[0], divs)
            self.around(n, up, down, divs, self.R)
        self.borders = [tab.reserve('ss')[0] if b else None for b in borders]
        tab.trapezoid(self.R[0], self.borders[0], self.borders[1], self.at.get('up'), self.at.get('down'), self.q[1])
        tab.sink(self.q[1], self.R[0])
        self.other = tab.reserve('ts')[0]
        tab.sink(self.q[2], self.other)
        if deep:
            ty = tab.ety['qs']
            v = tab.variant(ty, 'Branch')
            f = tab.me.T(ty)['variants'][v]['fields']
            bty = f[2][1]
            bv = tab.variant(bty, 'X')
            br = Agg(bty, bv, [tab.coords(x[1], 'b%d' % j) for j, x in enumerate(tab.me.T(bty)['variants'][bv]['fields'])])
            l, r = (self.q[1], self.q[2]) if deep == 'left' else (self.q[2], self.q[1])
            tab.rows['qs'][self.q[0]] = Agg(ty, v, [tab.idx(f[0][1], l), tab.idx(f[1][1], r), br])

    def side(self, me, st, fr, t, i, vi, args):
        if i['krate'] != 'triangulate' or i['name'] != 'is_left_of_line' or len(args) != 3:
            return None
        return me.result(st, fr, t, B(self.deep == 'left'))

    def lookup(self, me, st, fr, t, i, vi, args):
        if i['kind'] == 'unresolved' and i['name'] == 'get_vertex' and trait_of(i, vi) == 'PolygonList':
            return me.result(st, fr, t, Ref(('d', Sym(K('app', 'vertex', args[1]), None))))
        return None

    def judge(self, st, v):
        tab = self.tab
        A = After(tab, st)
        v = A.value(v)
        if v.v != 0:
            raise Wrong('entering a vertex into a consistent subdivision fails')
        nt, nn = len(tab.rows['ts']), len(tab.rows['ns'])
        if len(A.rows['ts']) != nt + 1 or len(A.rows['ns']) != nn + 1:
            raise Wrong('%d regions and %d vertices are added for one vertex' % (len(A.rows['ts']) - nt, len(A.rows['ns']) - nn))
        if A.num(v.f[0]) != nn:
            raise Wrong('position %d is handed out for the vertex entered at %d' % (A.num(v.f[0]), nn))
        kind, x = A.node(self.q[1])
        if kind != 'Branch':
            raise Wrong('the search structure still leads to the region as a whole')
        b = A.value(x.f[2])
        bn = tab.me.T(b.ty)['variants'][b.v]['name']
        if bn != 'Y':
            raise Wrong('the search structure divides the region by %s, not at the height of the vertex' % bn)
        new = A.rows['ns'][nn]
        nty = tab.ety['ns']
        c = A.get(new, nty, 'c')
        if tab.me.same(st, b.f[0], c) is not True:
            raise Wrong('the search structure divides the region at %r, not at the vertex %r' % (b.f[0], c))
        if tab.me.same(st, A.get(new, nty, 'vi'), tab.me.mk(tab.field(nty, 'vi')[1], K('in', 'a1'))) is not True:
            raise Wrong('the vertex entered carries the index %r' % (A.get(new, nty, 'vi'),))
        where, leaf = {}, {}
        for side, child in (('down', x.f[0]), ('up', x.f[1])):
            q = A.num(child)
            t = A.leaf(q)
            if t is None:
                raise Wrong('the search structure does not lead to the %s half' % side)
            where[side], leaf[side] = t, q
        if set(where.values()) != {self.R[0], nt}:
            raise Wrong('the halves are the regions %s, not the old one and a new one' % sorted(where.values()))
        for side in ('down', 'up'):
            z = A.trapezoid(where[side])
            want = dict(left=self.borders[0], right=self.borders[1], sink=leaf[side])
            want['up'] = nn if side == 'down' else self.at.get('up')
            want['down'] = nn if side == 'up' else self.at.get('down')
            for n in ('left', 'right', 'up', 'down', 'sink'):
                if z[n] != want[n]:
                    raise Wrong('the %s of the %s half is %r, not %r' % (dict(left='left border', right='right border', up='upper vertex', down='lower vertex', sink='leaf in the search structure')[n],
                                                                         dict(up='upper', down='lower')[side], z[n], want[n]))
        z = A.nexus(nn)
        if z != dict(upleft=where['up'], downleft=where['down'], divs=[]):
            raise Wrong('the vertex entered is linked to %s' % self.links(z))
        for name in self.at:
            b = self.before[name]
            m = lambda t: where[name] if t == self.R[0] else t
            want = dict(upleft=m(b['upleft']), downleft=m(b['downleft']), divs=[(s, d, m(t)) for s, d, t in b['divs']])
            z = A.nexus(self.at[name])
            if z != want:
                raise Wrong('the vertex %s is linked to %s, not %s' % (dict(up='above', down='below')[name], self.links(z), self.links(want)))
        self.rest(A, dict(ts={self.R[0]}, ns=set(self.at.values()), qs={self.q[1]}, ss=set()))
        return 16 + len(self.at)

    def describe(self):
        t = lambda c: 'none' if c is None else '%s, region %d' % ('+'.join(c[0]) or 'no edge', c[1] + 1)
        return 'vertex above: %s; vertex below: %s' % (t(self.above), t(self.below))


def run(ctx, srv, root, make, nargs, key, steps=12, more=0):
    c = Case(srv, root, exact=True, delay=steps, limit=20000 + 2000 * steps, deadline=time.time() + 30)
    me = c.me
    try:
        tab = Tables(c, more)
        sh = make(tab)
        self = tab.state()
        args = [self] + [sh.argument(c, k) for k in range(1, nargs)]
        me.handlers = [sh.side, sh.eq, getattr(sh, 'lookup', sh.eq)] + me.handlers
        stop = None
        try:
            c.go(args)
        except Undecided as e:
            stop = e
        fin = c.finals
        for u in me.undecided:
            stop = Undecided(str(u))
        if not fin and stop:
            raise stop
        if not fin and me.cut:
            raise Undecided('the walk does not end within %d steps' % steps)
        if not fin:
            ctx.bad('%s/panic' % key, '%s (%s): it panics on a consistent subdivision' % (key, sh.describe()))
        good = 0
        for st, v in fin:
            try:
                good += sh.judge(st, v)
            except Wrong as e:
                ctx.bad('%s/%s' % (key, str(e)[:40]), '%s (%s): %s' % (key, sh.describe(), e), None, st.trace_list())
        ctx.absorb(me, good, key)
        if stop and not ctx.violations:
            raise stop
        return True
    except Undecided as e:
        ctx.open('%s: %s' % (key, e))
        return False


def edge_argument(sh):
    def f(c, k):
        me = sh.tab.me
        ty = c.run.argty(k)
        n = sh.N[-1] if k in (1, 3) else sh.N[0]
        return sh.tab.idx(ty, n) if k in (1, 2) else me.mk(ty, K('in', 'c%d' % n))
    return f


def check(ctx, srv):
    f = {}
    for name in ('add_vertex', 'add_segment'):
        rs = pick(srv, lambda q, i: i['name'] == name and base(i) == 'TrapezoidationState' and not i['trait'])
        if len(rs) != 1:
            ctx.open('%s not found' % name)
            continue
        f[name] = rs[0]
    near, far = sizes.turns(srv, [r['inst'] for r in f.values()], 3, 3000)
    ctx.sample(dict(numbers_mentioned=near + far))
    for x in far:
        ctx.open('the code compares with %d: tables and walks of that size are not analysed' % x)
    if 'add_vertex' in f:
        vertices(ctx, srv, f['add_vertex'])
        for x in near:
            vertices(ctx, srv, f['add_vertex'], max(0, x - 8), 7)
            vertices(ctx, srv, f['add_vertex'], x + 1, 7)
    if 'add_segment' in f:
        edges(ctx, srv, f['add_segment'], near)


def vertices(ctx, srv, root, more=0, every=1):
    opts = [None] + [(kk, p) for kk in ((),) + KINDS for p in range(3)]
    n, failed = 0, 0
    for above, below, deep, borders in itertools.product(opts, opts, (None, 'left', 'right'), itertools.product((True, False), repeat=2)):
        if above and above[1] > above[0].count('desc') or below and below[1] > below[0].count('asc'):
            continue
        n += 1
        if deep and n % 5 or n % every or failed > 3 or len(ctx.violations) > 5:
            continue

        def make(tab):
            sh = Vertex(tab, above, below, deep, borders)
            sh.argument = lambda c, k: c.me.mk(c.run.argty(k), K('in', 'a1')) if k == 1 else tab.idx(c.run.argty(k), sh.q[0] if deep else sh.q[1])
            return sh
        if run(ctx, srv, root, make, 3, 'entering a vertex', more=more):
            ctx.count('situations of a vertex')
        else:
            failed += 1


def walks(upto, near):
    """(vertices passed, edges joined to the ends, are the outermost borders edges, entries before them in the tables)"""
    mids = [(s, kk) for s in 'LR' for kk in KINDS]
    tops, bottoms = ('', 'asc', 'descL', 'descR'), ('', 'desc', 'ascL', 'ascR')
    ends = list(itertools.product(tops, bottoms))
    for k in range(upto):
        for ms in itertools.product(mids, repeat=k):
            for j, (top, bottom) in enumerate(ends):
                for fresh in (False, True) if k < 2 else (False,):
                    if k < 3 or (j + j // 4) % 4 == 0:
                        yield list(ms), top, bottom, fresh, 0
    # longer walks: some of them
    rnd = random.Random(7)
    for k in sorted({4, 5, 7, 12, 20} | {x + d for x in near if x <= 300 for d in (-1, 0, 1)}):
        for p in ('L', 'R', 'LR', 'LLLRRR', '?', '?', '?'):
            for q in range(4):
                top, bottom = ends[(5 * q + k) % 16] if p != '?' else rnd.choice(ends)
                ms = [(p[j % len(p)] if p != '?' else rnd.choice('LR'), rnd.choice(KINDS)) for j in range(k)]
                yield ms, top, bottom, bool(q % 2), 0
    # large tables: some situations
    for x in near:
        for ms in [()] + [(m,) for m in mids]:
            for j, (top, bottom) in enumerate(ends):
                if (j + len(ms)) % 3 == 0:
                    for more in {max(0, x - 8), x + 1}:
                        yield list(ms), top, bottom, False, more


def edges(ctx, srv, root, near):
    failed = 0
    for ms, top, bottom, fresh, more in walks(3 if ctx.tier == 'quick' else 4, near):
        if top[:-1] == 'desc' and bottom == 'asc' + top[-1] and top[-1] not in [s for s, _ in ms]:
            # the same edge twice
            continue
        if len(ctx.violations) > 5 or failed > 3 or ctx.left() < 60:
            ctx.count('situations not reached')
            continue

        def make(tab):
            sh = Shape(tab, top, ms, bottom, fresh)
            sh.cty = tab.field(tab.ety['ns'], 'c')[1]
            sh.argument = edge_argument(sh)
            return sh
        if run(ctx, srv, root, make, 5, 'entering an edge', len(ms) + 12, more):
            ctx.count('situations of an edge')
        else:
            failed += 1
