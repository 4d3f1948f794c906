"""C14: how the items of a polygon list are cut into polygons.

trapezoidize is interpreted on a list that answers any sequence of vertices and boundaries. The work on one polygon - a function of
the crate that is given the collected vertices and may only fail with an internal error - is taken as a whole: it is noted which
vertices it is given, afterwards everything it could change is unknown, and it succeeds or fails at will."""
from common import *
import sizes

INTERNAL = 'InternalError'
SIZE = 'NotEnoughVertices'


def last(t):
    return t['raw'].split('::')[-1] if t['k'] == 'adt' else None


def is_count(k):
    return KEYS[k][0] == 'app' and KEYS[k][1] == 'vertex_count'


def speaks_of_count(v):
    if isinstance(v, Lin):
        return any(is_count(k) or any(speaks_of_count(c) for c in KEYS[k]) for k, _ in v.t)
    if isinstance(v, Sym):
        return is_count(v.k) or any(speaks_of_count(c) for c in KEYS[v.k])
    return False


def whole(l, total):
    """value of a linear expression when the list has that many vertices; KeyError if it depends on something else"""
    r = l.c
    for k, m in l.t:
        key = KEYS[k]
        if is_count(k):
            x = total
        elif key[0] == 'div' and isinstance(key[1], Lin) and isinstance(key[2], (int, Lin)):
            d = key[2] if isinstance(key[2], int) else whole(key[2], total)
            if d <= 0:
                raise KeyError
            x = whole(key[1], total) // d
        else:
            raise KeyError
        r += m * x
    return r


class Items(object):
    def __init__(self, srv, items=None, plan=None, **kw):
        self.plan = plan
        self.run = Run(srv, 'harness::trapezoidize', **kw)
        self.me, self.st = self.run.me, self.run.st
        self.limit = items
        self.good = 0
        self.oks = 0
        self.errs = 0
        self.cuts = set()
        self.me.handlers = [self.take, self.cut, self.chance, lookups]
        self.me.on_final = self.final
        self.keys = {}
        for k in range(items or 0):
            self.keys[K('in', 'vertex%d' % k)] = k

    def go(self):
        self.st.ghost = self.ghost()
        self.p = self.run.arg(0, 'p')
        try:
            self.run.start([self.p])
        except Undecided as e:
            self.me.undecided.append(str(e))
        return self

    def chance(self, me, st, fr, t, i, vi, args):
        if i['krate'] in ('rand', 'rand_core'):
            raise Undecided('the vertices of a polygon are not handed over as a whole')
        return None

    # ------------------------------------------------------------ the work on one polygon
    def cut(self, me, st, fr, t, i, vi, args):
        if i['krate'] != 'triangulate' or not i['body'] or t[4] is None or i['kind'] in ('unresolved', 'virtual', 'intrinsic'):
            return None
        ty = me.place(st, fr, t[3])[2]
        rt = me.T(ty)
        if last(rt) != 'Result' or last(me.T(rt['args'][1])) != INTERNAL:
            return None
        found = []
        for n, a in enumerate(args):
            if isinstance(a, Ref):
                v = me.read(st, a.cell, a.path)
            else:
                v = a
            for path, s in self.sequences(v, ()):
                found.append((n, a, path, s))
        if not found:
            return None
        if len(found) > 1:
            raise Undecided('the vertices of a polygon are handed over in several places')
        n, a, path, s = found[0]
        key = K('call', fr.uid, fr.bb)
        r = Sym(key, ty)
        var = me.variant(st, r)
        self.work(st, s, var, t[6])
        st.var.pop(key, None)
        self.cuts.add(i['full'])
        # whatever it can reach through mutable references is unknown afterwards
        for a in args:
            if isinstance(a, Ref):
                self.havoc(st, a, me.celltype.get(a.cell))
        if var == 0:
            x = Agg(ty, 0, [me.mk(f, fresh('res')) for f in me.fields(ty, 0)])
        else:
            x = Agg(ty, 1, [me.mk(f, K('in', 'failure')) for f in me.fields(ty, 1)])
        return me.result(st, fr, t, x)

    def sequences(self, v, path, depth=0):
        if isinstance(v, VecV):
            if self.speaks(v):
                yield path, v
        elif isinstance(v, Agg) and depth < 3:
            for n, x in enumerate(v.f):
                for y in self.sequences(x, path + (('f', v.v, n),), depth + 1):
                    yield y

    def havoc(self, st, a, ty):
        me = self.me
        v = me.read(st, a.cell, a.path)
        me.write(st, a.cell, a.path, self.unknown(v))

    def unknown(self, v):
        if isinstance(v, VecV):
            n = v.length()
            k = fresh('worked')
            e = None
            t = self.me.T(v.ty) if v.ty is not None else None
            if t is not None:
                e = t['args'][0] if t['k'] == 'adt' else t.get('elem')
            if e is None:
                raise Undecided('vertices of unknown type')
            if t['k'] == 'slice' or self.speaks(v):
                return VecV(v.ty, [('s', k, ZERO, n, e)], (), v.tag)
            return self.me.mk(v.ty, k)
        if isinstance(v, Agg):
            return Agg(v.ty, v.v, [self.unknown(x) if isinstance(x, (VecV, Agg)) else x for x in v.f])
        return v


class Exact(Items):
    """every list of at most `limit` items, one by one"""

    def ghost(self):
        return dict(items=(), end=False, worked=(), failed=False)

    def speaks(self, v):
        b = bases(v)
        return any(k in b for k in self.keys)

    def take(self, me, st, fr, t, i, vi, args):
        if i['kind'] != 'unresolved' or trait_of(i, vi) != 'Items':
            return None
        g = st.ghost
        ty = me.place(st, fr, t[3])[2]
        k = len(g['items'])
        if self.plan is not None and not g['end'] and k < self.limit:
            et = me.T(ty)['args'][0]
            names = [x['name'] for x in me.T(et)['variants']]
            v = names.index('ContinuePolygon')
            if self.plan[k] == 'v':
                g['items'] = g['items'] + (k,)
                e = Agg(et, v, [me.mk(me.fields(et, v)[0], K('in', 'vertex%d' % k))])
            else:
                g['items'] = g['items'] + ('|',)
                e = Agg(et, 1 - v, ())
            return me.result(st, fr, t, Agg(ty, 1, [e]))
        if g['end'] or k >= self.limit:
            g['end'] = True
            return me.result(st, fr, t, Agg(ty, 0, ()))
        et = me.T(ty)['args'][0]
        names = [x['name'] for x in me.T(et)['variants']]
        v = names.index('ContinuePolygon')
        x = Sym(K('in', 'next%d' % k), ty)
        if me.variant(st, x) == 0:
            g['end'] = True
            return me.result(st, fr, t, Agg(ty, 0, ()))
        e = Sym(K('in', 'item%d' % k), et)
        w = me.variant(st, e)
        if w == v:
            g['items'] = g['items'] + (k,)
            e = Agg(et, v, [me.mk(me.fields(et, v)[0], K('in', 'vertex%d' % k))])
        else:
            g['items'] = g['items'] + ('|',)
            e = Agg(et, w, ())
        return me.result(st, fr, t, Agg(ty, 1, [e]))

    def runs(self, g):
        r, c = [], []
        for x in g['items'] + ('|',):
            if x == '|':
                if c:
                    r.append(tuple(c))
                c = []
            else:
                c.append(x)
        return r

    def work(self, st, s, var, span):
        me = self.me
        if s.w:
            s = me.vmat(st, s)
        seq = []
        for c in s.ch:
            if c[0] != 'e':
                if st.known_eq(c[3], ZERO):
                    continue
                m = None
                for j in range(1, 12):
                    if st.known_eq(c[3], Lin(j)):
                        m = j
                seq.extend(['old'] * m if m else ['?'])
                continue
            x = [self.keys[k] for k in bases(c[1]) if k in self.keys]
            if len(x) == 1:
                seq.append(x[0])
            else:
                seq.append('mixed' if x else '?')
        g = st.ghost
        if var == 1:
            g['failed'] = True
        st.note(('polygon worked on', tuple(seq)))
        g['worked'] = g['worked'] + (tuple(seq),)

    def bad(self, st, what, g):
        text = ''.join('|' if x == '|' else 'v' for x in g['items'])
        self.me.report(st, '%s; items %s' % (what, text or 'none'))

    def counted(self, st, n, g):
        """the value of an expression in the number of vertices of the whole list, which is known once the list is at its end and
        before that may be any number from those seen; the value that is wrong, if it depends on the rest"""
        seen = sum(1 for x in g['items'] if x != '|')
        got = set()
        for total in [seen] if g['end'] else range(seen, seen + 7):
            try:
                if any(whole(l, total) > 0 for l in st.cons if speaks_of_count(l)):
                    continue
                if any(speaks_of_count(Sym(k, None)) for k in st.bl):
                    return None
                got.add(whole(n, total))
            except KeyError:
                return None
        got = sorted(got)
        if len(got) == 1:
            return got[0]
        return max(got, key=lambda c: abs(2 * c - 3)) if got else None

    def final(self, st, v):
        me, g = self.me, st.ghost
        x = v if isinstance(v, Agg) else me.expand(v, None, st)
        if not isinstance(x, Agg) or not isinstance(x.v, int):
            return me.unproved(st, 'result not understood')
        runs = self.runs(g)
        small = [len(r) for r in runs if len(r) < 3]
        if x.v == 0:
            self.oks += 1
            if not g['end']:
                return self.bad(st, 'success before the list is at its end', g)
            if small:
                return self.bad(st, 'success although there is a polygon of %d vertices' % small[0], g)
            got = list(g['worked'])
            if any('?' in w for w in got):
                return me.unproved(st, 'vertices of unknown origin in %r' % (got,))
            if got == runs:
                self.good += 1
                return
            if [tuple(sorted(map(str, w))) for w in got] == [tuple(sorted(map(str, w))) for w in runs]:
                for w, r in zip(got, runs):
                    both = [r[k:] + r[:k] for k in range(len(r))]
                    if w not in both and w[::-1] not in both:
                        return self.bad(st, 'the vertices of a polygon are taken in the order %s' % (w,), g)
                return me.unproved(st, 'the vertices of a polygon are taken in the order %r' % (got,))
            if sorted(map(str, got)) == sorted(map(str, runs)):
                return me.unproved(st, 'polygons worked on in another order')
            return self.bad(st, 'worked on the polygons %s instead of %s' % (got, runs), g)
        self.errs += 1
        e = x.f[0]
        if isinstance(e, Sym):
            e = me.expand(e, None, st)
        if not isinstance(e, Agg) or not isinstance(e.v, int):
            return me.unproved(st, 'error not understood')
        name = me.T(e.ty)['variants'][e.v]['name']
        if name == SIZE:
            n = e.f[0]
            c = n.const() if isinstance(n, Lin) else None
            if c is None and isinstance(n, Lin) and all(m > 0 and KEYS[k][0] in ('len', 'fresh') and 'worked#' in kstr(k) for k, m in n.t):
                # it grows with the tables, which the polygons worked on before have filled
                return self.bad(st, 'fails for a number of vertices that depends on the tables', g)
            if c is None:
                c = self.counted(st, n, g)
            if c is None:
                return me.unproved(st, 'vertex count %r not understood' % (n,))
            open_run = len(g['items']) - max([k + 1 for k, y in enumerate(g['items']) if y == '|'] + [0])
            closed = small if g['end'] else [len(r) for r in runs[:len(runs) - bool(open_run)] if len(r) < 3]
            if c not in closed:
                return self.bad(st, 'fails for a polygon of %d vertices' % c + (' although there is none' if c < 3 else ''), g)
            self.good += 1
        elif g['failed']:
            self.good += 1
        else:
            self.bad(st, 'fails with %s although nothing went wrong' % name, g)


class Counts(Items):
    """lists of any length: how many vertices each polygon has"""

    def ghost(self):
        return dict(open=ZERO, due=ZERO, end=False, failed=False)

    def speaks(self, v):
        if v.ty is None:
            return False
        t = self.me.T(v.ty)
        e = t['args'][0] if t['k'] == 'adt' else t.get('elem')
        return self.holds(e)

    def holds(self, ty, depth=0):
        """can a value of this type carry a vertex index that is not yet part of a trapezoid"""
        t = self.me.T(ty)
        if t['k'] in ('alias', 'param') and 'Index' in t['s']:
            return True
        if t['k'] == 'adt' and last(t) in ('Nexus', 'Segment', 'Trapezoid', 'QueryNode', 'Idx'):
            return False
        if depth < 5 and t['k'] == 'adt':
            return any(self.holds(f[1], depth + 1) for v in t['variants'] for f in v['fields'])
        if depth < 5 and t['k'] == 'tuple':
            return any(self.holds(f, depth + 1) for f in t['fields'])
        return False

    def take(self, me, st, fr, t, i, vi, args):
        if i['kind'] != 'unresolved' or trait_of(i, vi) != 'Items':
            return None
        g = st.ghost
        ty = me.place(st, fr, t[3])[2]
        if g['end']:
            return me.result(st, fr, t, Agg(ty, 0, ()))
        et = me.T(ty)['args'][0]
        v = [x['name'] for x in me.T(et)['variants']].index('ContinuePolygon')
        k1, k2 = K('coin', 'more', fr.uid), K('coin', 'what', fr.uid)
        x = me.variant(st, Sym(k1, ty))
        w = me.variant(st, Sym(k2, et)) if x == 1 else None
        if w != v:
            some = not st.le(g['open'])
            if some and not st.known_eq(g['due'], ZERO):
                me.unproved(st, 'a polygon ends before the one before it is dealt with', t[6])
                raise PathEnd('open')
        st.var.pop(k1, None)
        st.var.pop(k2, None)
        if w == v:
            g['open'] = g['open'] + 1
            return me.result(st, fr, t, Agg(ty, 1, [Agg(et, v, [me.mk(me.fields(et, v)[0], fresh('vertex'))])]))
        if some:
            g['due'] = g['open']
            g['open'] = ZERO
        if x == 0:
            g['end'] = True
            return me.result(st, fr, t, Agg(ty, 0, ()))
        return me.result(st, fr, t, Agg(ty, 1, [Agg(et, w, ())]))

    def work(self, st, s, var, span):
        me, g = self.me, st.ghost
        n = s.length()
        if not st.known_eq(n, g['due']):
            me.unproved(st, 'worked on %r vertices where the polygon has %r' % (n, g['due']), span)
            raise PathEnd('open')
        if not st.entails(Lin(3) - n):
            me.unproved(st, 'worked on a polygon of %r vertices' % (n,), span)
            raise PathEnd('open')
        self.good += 1
        g['due'] = ZERO
        if var == 1:
            g['failed'] = True

    def final(self, st, v):
        me, g = self.me, st.ghost
        x = v if isinstance(v, Agg) else me.expand(v, None, st)
        if not isinstance(x, Agg) or not isinstance(x.v, int):
            return me.unproved(st, 'result not understood')
        if x.v == 0:
            self.oks += 1
            ok = g['end'] is True and st.known_eq(g['due'], ZERO) and st.known_eq(g['open'], ZERO)
            if ok:
                self.good += 1
            else:
                me.unproved(st, 'success although %r vertices may not have been dealt with' % (g['due'],))
            return
        self.errs += 1
        e = x.f[0]
        if isinstance(e, Sym):
            e = me.expand(e, None, st)
        if not isinstance(e, Agg) or not isinstance(e.v, int):
            return me.unproved(st, 'error not understood')
        name = me.T(e.ty)['variants'][e.v]['name']
        if name == SIZE:
            n = e.f[0]
            if isinstance(n, Lin) and st.known_eq(n, g['due']) and st.entails(n - 2) and st.entails(Lin(1) - n):
                self.good += 1
            else:
                me.unproved(st, 'fails for %r vertices where the polygon has %r' % (n, g['due']))
        elif g['failed'] is True:
            self.good += 1
        else:
            me.unproved(st, 'fails with %s where nothing need have gone wrong' % name)


def check(ctx, srv, limit):
    a = Exact(srv, limit, exact=True, delay=limit + 8, limit=4000000, deadline=time.time() + ctx.left() / 2).go()
    me = a.me
    for v in me.violations:
        ctx.bad('items/' + v['what'].split(';')[0][:60], v['what'], v['span'], v['trace'])
    ctx.absorb(me, a.good, 'lists of at most %d items' % limit)
    for v in me.proof_failed:
        ctx.open(v['what'])
    if me.cut:
        ctx.open('%d paths left off in a loop of more than %d rounds' % (me.cut, limit + 8))
    if not a.oks and not me.violations:
        ctx.open('no success reached')
    near, far = sizes.turns(srv, [a.run.root['inst']], limit + 1, krates=('triangulate', 'harness'))
    for x in far:
        ctx.open('the code compares with %d: lists of that size are not analysed' % x)
    plans = set()
    for n in sorted({12, 20} | {x + d for x in near for d in (-1, 0, 1, 2)}):
        plans |= {'v' * n, 'v' * n + '|', 'vvv|' * n, 'vvvv|' * n + 'vv', 'vvv|' + 'v' * n, 'v' * n + '|vvv', 'v' * n + '|v', '|' * n + 'vvv', 'vvv' + '|' * n + 'vvv'}
    end = time.time() + 100
    for plan in sorted(plans, key=lambda p: (len(p), p)):
        if me.violations or time.time() > end:
            ctx.count('lists not reached')
            continue
        b = Exact(srv, len(plan), plan, exact=True, delay=len(plan) + 8, limit=1000000, deadline=time.time() + 30).go()
        me = b.me
        for v in me.violations:
            ctx.bad('items/' + v['what'].split(';')[0][:60], v['what'], v['span'], v['trace'])
        ctx.absorb(me, b.good, 'longer lists')
        for v in me.proof_failed:
            ctx.open(v['what'])
        if me.cut:
            ctx.open('longer lists: %d paths left off' % me.cut)
        ctx.count('longer lists')
    ctx.sample(dict(items=limit, successes=a.oks, errors=a.errs, polygon_work=sorted(a.cuts)))
    if me.violations:
        return
    b = Counts(srv, deadline=time.time() + ctx.left() / 2).go()
    me = b.me
    ctx.absorb(me, b.good, 'lists of any length')
    for v in me.proof_failed:
        ctx.open('lists of any length: %s' % v['what'])
    ctx.sample(dict(items='any number', successes=b.oks, errors=b.errs, fixpoint_joins=me.joins, polygon_work=sorted(b.cuts)))
