"""C09, C10 and the pieces of C18: what becomes of one monotone piece.

The piece is built through MonotoneBuilder from n vertices (n = 3 .. N) with arbitrary coordinates and handed to build_fans with an
opaque builder of either winding. The side test is an uninterpreted predicate of its three points, so every outcome of every test
is covered; states that recur at a loop are visited once, which makes the exploration a fixpoint: every number of passes over the
piece is covered for each n."""
from common import *
from order import base
import join
import random
import sizes


def callees(srv, root):
    """instances reachable from root through calls, in call order"""
    seen, order, todo = {root}, [root], [root]
    while todo:
        n = todo.pop(0)
        i = srv.inst(n)
        if not i['body'] or i['krate'] != 'triangulate':
            continue
        b = srv.body(n)
        if b is None:
            continue
        for bl in b['blocks']:
            t = bl['t']
            if t and t[0] == 'call' and t[1][0] != 'op':
                for x in t[1][1:3]:
                    if isinstance(x, int) and x not in seen:
                        seen.add(x)
                        order.append(x)
                        todo.append(x)
    return order


class Piece(Interp):
    """exact exploration: states seen before at a loop head end the path"""

    def __init__(self, srv, **kw):
        Interp.__init__(self, srv, **kw)
        self.seenat = set()
        self.recurred = 0
        self.winding = None

    def on_assoc(self, st, i, ty):
        t = self.T(ty)
        if t['k'] == 'adt' and t['raw'].split('::')[-1] == 'TriangleWinding' and self.winding:
            names = [v['name'] for v in t['variants']]
            if self.winding in names:
                return Agg(ty, names.index(self.winding), ())
        return None

    def head(self, st, fr, bb, back):
        join.tidy(self, st)
        key = (tuple((f.inst, f.bb) for f in st.frames), frozenset(st.mem.items()), frozenset(st.var.items()), frozenset(st.bl.items()), st.cons,
               frozenset(st.od.items()), tuple(sorted(st.ghost.items())))
        if key in self.seenat:
            self.recurred += 1
            raise PathEnd('recurs')
        self.seenat.add(key)
        return True


class Mono(object):
    def __init__(self, srv, n, winding, live=False, outcome=None, **kw):
        self.srv, self.n, self.winding, self.live, self.outcome = srv, n, winding, live, outcome
        rs = [r for r in srv.roots() if r['kind'] == 'assocfn' and srv.inst(r['inst'])['name'] == 'triangulate' and base(srv.inst(r['inst'])) == 'Trapezoidation' and not srv.inst(r['inst'])['trait']]
        if len(rs) != 1:
            raise Undecided('Trapezoidation::triangulate not found')
        self.root = rs[0]['inst']
        self.f = {}
        for x in callees(srv, rs[0]['inst']):
            i = srv.inst(x)
            if base(i) in ('MonotoneBuilder', 'Monotone') and not i['trait']:
                self.f.setdefault((base(i), i['name']), x)
        for k in (('MonotoneBuilder', 'new'), ('MonotoneBuilder', 'add_vertex'), ('MonotoneBuilder', 'build'), ('Monotone', 'build_fans')):
            if k not in self.f:
                raise Undecided('%s::%s not found' % k)
        self.me = me = Piece(srv, **kw)
        me.env_inst = rs[0]['inst']
        me.winding = winding
        self.st = State()
        self.st.ghost = dict(fans=(), tests=frozenset() if outcome else ())
        me.handlers = [self.side, self.builder, self.differ] + me.handlers
        self.ends = []
        self.over = []
        self.free = False
        self.where = None
        self.v, self.c = [], []
        b = me.body(self.f['MonotoneBuilder', 'add_vertex'])
        for k in range(n):
            self.v.append(me.mk(b['locals'][2], K('in', 'v%d' % k)))
            self.c.append(me.mk(b['locals'][3], K('in', 'c%d' % k)))
        self.at = {c: k for k, c in enumerate(self.c)}
        self.vat = {v: k for k, v in enumerate(self.v)}
        self.coordat = {}
        for k, c in enumerate(self.c):
            for x in (0, 1):
                self.coordat[comp(me, c, x)] = (k, x)

    # ------------------------------------------------------------ contracts
    def point(self, st, v):
        v = deref(self.me, st, v)
        if v in self.at:
            return self.at[v]
        for k, c in enumerate(self.c):
            if v == c or self.me.same(st, v, c) is True:
                return k
        return None

    def vertex(self, st, v):
        return self.vat.get(deref(self.me, st, v))

    def side(self, me, st, fr, t, i, vi, args):
        if i['krate'] == 'triangulate' and i['name'] == 'is_left_of_line' and len(args) == 3:
            ps = tuple(self.point(st, a) for a in args)
            if None in ps:
                raise Undecided('side test of an unknown point')
            # turning the three points round does not change on which side they lie: lowest point first
            q = ps.index(max(ps))
            ps = ps[q:] + ps[:q]
            ty = me.place(st, fr, t[3])[2]
            if self.outcome:
                r = self.outcome(ps)
                if (ps, r) not in st.ghost['tests']:
                    st.ghost['tests'] = st.ghost['tests'] | {(ps, r)}
                return me.result(st, fr, t, B(r))
            for q, r in st.ghost['tests']:
                if q == ps:
                    return me.result(st, fr, t, B(r))
            k = K('left', *[str(p) for p in ps])
            r = me.truth(st, Sym(k, ty))
            st.bl.pop(k, None)
            st.ghost['tests'] = tuple(sorted(st.ghost['tests'] + ((ps, r),)))
            return me.result(st, fr, t, B(r))
        return None

    def differ(self, me, st, fr, t, i, vi, args):
        """the piece is not degenerate: the coordinates compared while building it differ"""
        if i['kind'] != 'unresolved' or trait_of(i, vi) not in ('PartialEq', 'PartialOrd') or len(args) != 2:
            return None
        if self.where is None and (self.free or i['name'] not in ('eq', 'ne')):
            return None
        if not any(base(me.inst(f.inst)) == 'MonotoneBuilder' for f in st.frames) or any(me.inst(f.inst)['name'] == 'is_left_of_line' for f in st.frames):
            return None
        a, b = (deref(me, st, x) for x in args)
        if not isinstance(a, Sym) or not isinstance(b, Sym) or a.k == b.k:
            return None
        if self.where is not None:
            if a not in self.coordat or b not in self.coordat:
                raise Undecided('comparison of something that is not a coordinate')
            (p, x), (q, y) = self.coordat[a], self.coordat[b]
            if x != y:
                raise Undecided('comparison of different coordinates')
            p, q = self.where[p][x], self.where[q][x]
            r = {'eq': p == q, 'ne': p != q, 'lt': p < q, 'le': p <= q, 'gt': p > q, 'ge': p >= q}.get(i['name'])
            if r is None:
                raise Undecided('comparison of coordinates by %s' % i['name'])
            return me.result(st, fr, t, B(r))
        return me.result(st, fr, t, B(i['name'] == 'ne'))

    def builder(self, me, st, fr, t, i, vi, args):
        if i['kind'] != 'unresolved' or trait_of(i, vi) not in ('FanFormat', 'FanBuilder'):
            return None
        n = i['name']
        g = st.ghost
        ty = me.place(st, fr, t[3])[2]
        if n == 'initialize':
            g['fans'] = g['fans'] + (self.abc(st, args[2:5]),)
            return me.result(st, fr, t, Agg(ty, 0, [me.mk(me.fields(ty, 0)[0], K('in', 'builder'))]))
        if n == 'new_fan':
            g['fans'] = g['fans'] + (self.abc(st, args[1:4]),)
        elif n == 'extend_fan':
            if not g['fans']:
                return me.result(st, fr, t, Agg(ty, 0, [Agg(me.fields(ty, 0)[0], 0, ())]))
            g['fans'] = g['fans'][:-1] + (g['fans'][-1] + self.abc(st, args[1:2]),)
        else:
            return None
        if sum(len(f) - 2 for f in g['fans']) > self.n - 2:
            self.over.append(st.copy())
            raise PathEnd('too many triangles')
        return me.result(st, fr, t, Agg(ty, 0, [Agg(me.fields(ty, 0)[0], 0, ())]))

    def abc(self, st, args):
        r = tuple(self.vertex(st, a) for a in args)
        if None in r:
            raise Undecided('a vertex handed to the builder is not one of the piece')
        return r

    # ------------------------------------------------------------ the run
    def go(self, upto_build=False):
        me, st = self.me, self.st
        f = self.f
        cell = ('arg', 0)
        n = self.n

        def add(k):
            def cont(me, st, v):
                if k == 1:
                    st.mem[cell] = v
                x = st.mem[cell]
                mentioned = bases(x)
                st.cons = frozenset(l for l in st.cons if bases(l) & mentioned)
                key = (k, x, frozenset(st.var.items()), frozenset(st.bl.items()), st.cons, frozenset(st.od.items()))
                if key in me.seenat:
                    return False
                me.seenat.add(key)
                if k < n:
                    me.push(st, f['MonotoneBuilder', 'add_vertex'], [Ref(cell), self.v[k], self.c[k]], None, None, add(k + 1))
                    st.frames[-1].cont = add(k + 1)
                else:
                    v = st.mem.pop(cell)
                    me.push(st, f['MonotoneBuilder', 'build'], [v], None, None, built)
                return True
            return cont

        def built(me, st, v):
            x = v if isinstance(v, Agg) else me.expand(v, None, st)
            if upto_build:
                self.ends.append((st.copy(), x))
                return False
            if not isinstance(x, Agg) or x.v != 0:
                return False
            y = x.f[0] if isinstance(x.f[0], Agg) else me.expand(x.f[0], None, st)
            if not isinstance(y, Agg) or y.v != 1:
                return False
            b = me.body(f['Monotone', 'build_fans'])
            fc = ('arg', 1)
            ft = me.T(b['locals'][3])['elem']
            me.celltype[fc] = ft
            s = me.mk(ft, K('in', 'fbs'))
            names = [z['name'] for z in me.T(ft)['variants']]
            w = 'Initialized' if self.live else 'Uninitialized'
            if w not in names:
                raise Undecided('the builder state has no %s' % w)
            w = names.index(w)
            st.mem[fc] = Agg(ft, w, [me.mk(z, K('in', 'fbs%d' % q)) for q, z in enumerate(me.fields(ft, w))])
            me.push(st, f['Monotone', 'build_fans'], [y.f[0], me.mk(b['locals'][2], K('in', 'ps')), Ref(fc)], None, None, fanned)
            return True

        def fanned(me, st, v):
            x = v if isinstance(v, Agg) else me.expand(v, None, st)
            self.ends.append((st.copy(), x))
            return False

        me.push(st, f['MonotoneBuilder', 'new'], [self.v[0], self.c[0]], None, None, add(1))
        me.explore([st])
        return self.ends


def triangles(fs):
    return [(f[0], f[k], f[k + 1]) for f in fs for k in range(1, len(f) - 1)]


def judge(n, winding, fs, tests):
    """{property: what is wrong} for the fans of one piece of n vertices, numbered from the top down"""
    left = dict(tests)
    side = {left[q] for q in left if q[0] == n - 1 and q[1] == 0}
    first = [left[q] for q in left if q[:2] == (n - 1, 0) and q[2] == 1]
    chain = first[0] if first else next(iter(side)) if len(side) == 1 else None
    tri = triangles(fs)
    bad = {}
    if chain is None:
        return None
    for a, b, c in tri:
        if len({a, b, c}) != 3:
            bad.setdefault('C10', 'the triangle (%d,%d,%d) repeats a vertex' % (a, b, c))
            continue
        hi, mid, lo = sorted((a, b, c))
        # tested with the lower and the upper end of the diagonal, then the vertex between
        r = left.get((lo, hi, mid))
        if r is None or r != chain:
            bad.setdefault('C10', 'the triangle (%d,%d,%d) is handed over although it %s' % (a, b, c, 'was never tested' if r is None else 'failed the test'))
            continue
        ccw = (hi, mid, lo) if r else (lo, mid, hi)
        want = ccw if winding == 'Counterclockwise' else ccw[::-1]
        if (a, b, c) not in (want, want[1:] + want[:1], want[2:] + want[:2]):
            bad.setdefault('C09', 'a %s builder is given the triangle (%d,%d,%d), whose winding is the opposite' % (winding.lower(), a, b, c))
    es = {}
    for x in tri:
        for p, q in ((x[0], x[1]), (x[1], x[2]), (x[2], x[0])):
            e = (min(p, q), max(p, q))
            es[e] = es.get(e, 0) + 1
    if len(tri) != n - 2:
        bad.setdefault('C10', '%d triangles for a piece of %d vertices' % (len(tri), n))
    elif len({tuple(sorted(x)) for x in tri}) != len(tri):
        bad.setdefault('C10', 'a triangle is handed over twice')
    else:
        for e, c in es.items():
            outer = e[1] - e[0] == 1 or e == (0, n - 1)
            if c != (1 if outer else 2):
                bad.setdefault('C10', 'a vertex is used after it was cut off: the edge %d-%d belongs to %d triangles' % (e + (c,)))
    return bad


def check(ctx, srv, prop, upto):
    sets = {}
    for n in range(3, upto + 1):
        for winding in ('Counterclockwise', 'Clockwise'):
            for live in ((False, True) if n < 6 else (True,)):
                if ctx.left() < 60 or ctx.violations:
                    ctx.count('sizes not reached')
                    continue
                m = Mono(srv, n, winding, live, limit=40000000, deadline=time.time() + min(ctx.left() - 30, 200 if ctx.tier == 'quick' else 500))
                if not piece(ctx, prop, m, sets):
                    continue
                ctx.sample(dict(vertices=n, winding=winding, builder='live' if live else 'not yet initialised', ends=len(m.ends), recurring=m.me.recurred))
    longer(ctx, srv, prop, upto)


def piece(ctx, prop, m, sets, shape=None):
    n, winding = m.n, m.winding
    what = 'piece of %d vertices%s' % (n, ' (%s)' % shape if shape else '')
    try:
        m.go()
    except Undecided as e:
        ctx.open('%s, %s: %s' % (what, winding, e))
        ctx.absorb(m.me, 0, what)
        return False
    good = 0
    for st, x in m.ends:
        if not isinstance(x, Agg):
            ctx.open('result not understood')
            continue
        if x.v != 0:
            continue
        fs, tests = st.ghost['fans'], st.ghost['tests']
        b = judge(n, winding, fs, tests)
        if b is None:
            ctx.open('the side of the chain is not decided by the side test of its ends')
            continue
        tt = sorted(tests)
        how = '%s (0 top, %d bottom), side tests %s%s, fans %s%s' % (what, n - 1, ', '.join(
            '%sleft(%d,%d,%d)' % ('' if r else 'not ', q[2], q[1], q[0]) for q, r in tt[:40]), ' ...' if len(tt) > 40 else '', list(fs)[:12], ' ...' if len(fs) > 12 else '')
        if prop in b:
            ctx.bad('build_fans/' + prop, '%s; %s' % (b[prop], how), span(m), st.trace_list())
        else:
            good += 1
        if not b and prop == 'C09':
            k = (n, shape or tests)
            s = tuple(sorted(tuple(sorted(y)) for y in triangles(fs)))
            o = sets.setdefault(k, s)
            if o != s:
                ctx.bad('build_fans/both', 'the two windings give different triangles; ' + how, span(m))
    for st in m.over[:1]:
        if prop == 'C10':
            ctx.bad('build_fans/over', 'more than %d triangles are handed over for a piece of %d vertices: fans %s' % (n - 2, n, list(st.ghost['fans'])[:12]), span(m), st.trace_list())
    if not good and not m.over and not ctx.violations:
        ctx.open('%s: no successful end' % what)
    ctx.absorb(m.me, good, what if not shape else 'longer pieces')
    ctx.count('recurring states', m.me.recurred)
    return True


# ------------------------------------------------------------------ longer pieces, chosen outcomes
def profile(n, kind, rnd):
    """how far each vertex of the chain is from the single edge (which is straight up and down)"""
    if kind == 'round':
        return [0] + [1000 * k * (n - 1 - k) + 1 for k in range(1, n - 1)] + [0]
    if kind == 'hollow':
        return [0] + [n * n * n - k * (n - 1 - k) for k in range(1, n - 1)] + [0]
    if kind == 'zigzag':
        return [0] + [1000 * (k * (n - 1 - k)) * (1 + k % 2) + 1 for k in range(1, n - 1)] + [0]
    if kind == 'rising':
        return [0] + [k * k for k in range(1, n - 1)] + [0]
    if kind == 'falling':
        return [0] + [(n - k) * (n - k) for k in range(1, n - 1)] + [0]
    if kind in ('late', 'last'):
        # ever steeper away from the edge down to vertex m, then a fan round m: vertex m can only be cut off in the next pass over the piece
        m = n - 4 if kind == 'last' else n - 1 - max(3, n // 4)
        w = n - 1 - m
        tail = [m * m * (w - t) * w + 50 * n * n * t * (w - t) * w for t in range(1, w)]
        return [0] + [k * k * w * w for k in range(1, m + 1)] + tail + [0]
    if kind in ('early', 'first'):
        return profile(n, 'late' if kind == 'early' else 'last', rnd)[::-1]
    return [0] + [rnd.randint(1, 1000000) for k in range(1, n - 1)] + [0]


def shape_of(n, kind, left, seed=1):
    """(outcome of the side test, coordinates of the vertices)"""
    if kind.startswith('again'):
        # one short fan round vertex t - 1 and nothing more in the first pass; in the second everything can be cut off, starting with t - 1
        t = 3 if kind == 'again' else n // 2

        def outcome(ps):
            lo, hi, mid = ps
            d = lo - hi
            r = mid == t if d == 2 else (lo, hi, mid) == (t + 2, t - 1, t + 1) if d == 3 else (lo, hi, mid) != (t + 3, t - 1, t + 2)
            return r == left
        return outcome, [(0 if k in (0, n - 1) else 1 + k % 2, -k) for k in range(n)]
    xs = profile(n, kind, random.Random(seed * 1000 + n))
    if left:
        xs = [-x for x in xs]

    def outcome(ps):
        a, b, c = ps
        return (xs[b] - xs[a]) * (a - c) - (a - b) * (xs[c] - xs[a]) > 0
    return outcome, [(xs[k], -k) for k in range(n)]


def longer(ctx, srv, prop, upto):
    m = Mono(srv, 3, 'Clockwise')
    near, far = sizes.turns(srv, [m.root], upto + 1)
    ctx.sample(dict(numbers_compared_beyond_exhaustive_sizes=near + far))
    for x in far:
        ctx.open('the code compares with %d: pieces of that size are not analysed' % x)
    todo = {17, 40} | {x + d for x in near for d in (0, 1, 2, 3, 8)}
    if ctx.tier == 'thorough':
        todo |= set(range(upto + 1, 36)) | {64, 65, 66, 100}
    kinds = ['round', 'last', 'again', 'again2', 'hollow', 'mixed', 'zigzag', 'late', 'rising', 'falling', 'first', 'early', 'mixed2'] + (['mixed3', 'mixed4', 'mixed5'] if ctx.tier == 'thorough' else [])
    sets = {}
    end = time.time() + (150 if ctx.tier == 'quick' else 400)
    for kind in kinds:
        for n in sorted(todo):
            for left in (False, True):
                for winding in ('Counterclockwise', 'Clockwise'):
                    if ctx.violations or ctx.left() < 45 or time.time() > end:
                        ctx.count('sizes not reached')
                        continue
                    s = '%s, chain on the %s' % (kind, 'left' if left else 'right')
                    outcome, where = shape_of(n, kind, left, len(kind))
                    m = Mono(srv, n, winding, True, outcome, limit=4000000, deadline=time.time() + 30)
                    m.where = where
                    piece(ctx, prop, m, sets, s)
                    ctx.count('longer pieces')


def span(m):
    b = m.me.body(m.f['Monotone', 'build_fans'])
    for bl in b['blocks']:
        sp = bl['t'][-1] if bl['t'] else None
        if isinstance(sp, (list, tuple)) and len(sp) >= 2:
            return sp
    return None


def degenerate(ctx, srv):
    """C18: a piece is dropped without triangles only if one of its coordinates never varies"""
    for n in (1, 2, 3, 4, 5):
        m = Mono(srv, n, 'Counterclockwise', limit=5000000, deadline=time.time() + ctx.left() - 30)
        m.free = True
        m.me.handlers = [h for h in m.me.handlers]
        try:
            m.go(True)
        except Undecided as e:
            ctx.open('building a piece of %d vertices: %s' % (n, e))
            continue
        good = 0
        for st, x in m.ends:
            me = m.me
            if not isinstance(x, Agg):
                ctx.open('result of build not understood')
                continue
            if x.v != 0:
                good += 1
                continue
            y = x.f[0] if isinstance(x.f[0], Agg) else me.expand(x.f[0], None, st)
            if not isinstance(y, Agg):
                ctx.open('result of build not understood')
                continue
            if y.v == 1:
                good += 1
                continue
            cs, wrong = classes(st)
            if wrong:
                continue
            same = [all(equal(me, st, comp(me, m.c[0], k), comp(me, c, k)) for c in m.c) or linked(cs, [comp(me, c, k) for c in m.c]) for k in (0, 1)]
            if n > 2 and not any(same):
                ctx.bad('build/none', 'a piece of %d vertices is discarded although neither coordinate is known to be the same for all of them; equalities on the path: %s' % (
                    n, {kstr(k): v for k, v in st.bl.items()}), None, st.trace_list())
            else:
                good += 1
        if not m.ends:
            ctx.open('building a piece of %d vertices: no end reached' % n)
        ctx.absorb(m.me, good, 'building a piece of %d' % n)
    flat(ctx, srv)


def flat(ctx, srv):
    """longer pieces, given which vertices differ from the first one in which coordinate"""
    m = Mono(srv, 3, 'Clockwise')
    near, far = sizes.turns(srv, [m.root], 6)
    for n in sorted({9, 17, 40} | {x + d for x in near for d in (0, 1, 2, 3)}):
        ends, al = {1, 2, n // 2, n - 2, n - 1}, set(range(1, n))
        for dx, dy in [({a}, {b}) for a in sorted(ends) for b in sorted(ends)] + [(al, {a}) for a in sorted(ends)] + [({a}, al) for a in sorted(ends)] + [(al, al)]:
            if ctx.violations or ctx.left() < 45:
                ctx.count('sizes not reached')
                continue
            m = Mono(srv, n, 'Counterclockwise', outcome=lambda ps: False, limit=1000000, deadline=time.time() + 30)
            m.where = [(k if k in dx else 0, k if k in dy else 0) for k in range(n)]
            try:
                m.go(True)
            except Undecided as e:
                ctx.open('building a piece of %d vertices: %s' % (n, e))
                return
            good = 0
            for st, x in m.ends:
                y = x.f[0] if isinstance(x, Agg) and x.v == 0 else None
                if y is not None and not isinstance(y, Agg):
                    y = m.me.expand(y, None, st)
                if not isinstance(x, Agg) or y is not None and not isinstance(y, Agg):
                    ctx.open('result of build not understood')
                elif y is None or y.v == 1:
                    good += 1
                else:
                    ctx.bad('build/none', 'a piece of %d vertices is discarded although vertex %d differs from the first in x and vertex %d in y' % (n, min(dx), min(dy)), None, st.trace_list())
            ctx.absorb(m.me, good, 'building longer pieces')


def comp(me, c, k):
    x = c
    for p in (0, k):
        y = x if isinstance(x, Agg) else me.expand(x, None, None)
        if y is None or not isinstance(y, Agg):
            break
        x = y.f[p] if p < len(y.f) else y.f[0]
    return x


def classes(st):
    """(sets of values that are equal by the facts of the path, whether the facts contradict each other)"""
    es = [{x.k for x in KEYS[k][1:3] if isinstance(x, Sym)} for k, v in st.bl.items() if v and KEYS[k][0] == 'eq' and len(KEYS[k]) >= 3]
    es += [set(p) for p, n in st.od.items() if n and n <= frozenset('=u')]
    cs = []
    for e in es:
        hit = [c for c in cs if c & e]
        cs = [c for c in cs if not c & e] + [set(e).union(*hit)]
    apart = [{x.k for x in KEYS[k][1:3] if isinstance(x, Sym)} for k, v in st.bl.items() if not v and KEYS[k][0] == 'eq' and len(KEYS[k]) >= 3]
    apart += [set(p) for p, n in st.od.items() if n and n <= frozenset('<>')]
    return cs, any(len(p) == 2 and p <= c for p in apart for c in cs)


def linked(cs, vs):
    ks = {v.k for v in vs if isinstance(v, Sym)}
    return len(ks) == 1 or any(ks <= c for c in cs)


def equal(me, st, a, b):
    if a == b:
        return True
    return me.same(st, a, b) is True
