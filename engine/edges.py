"""C16: which vertices and edges of a polygon enter the subdivision, and how.

trapezoidize is interpreted for one polygon of n vertices (the items a, b, c, ... then the end), every permutation the shuffle can
produce and every outcome of the comparisons of its vertices. Trapezoids and query nodes are data whose contents are not tracked:
every branch on them is taken both ways. Entering a vertex is a push onto a vector of Nexus, entering an edge a push onto a vector of
Segment; both lists are tracked exactly. Equal states continue once, which makes the exploration of the inner loops a fixpoint."""
import itertools
from common import *
import sizes as numbers
from sweep import Coarse, CState, ERRS
import core
import join

EVENTS = ('Nexus', 'Segment')


def short(t):
    return t['raw'].split('::')[-1] if t['k'] == 'adt' else None


class Edges(Coarse):
    def __init__(self, srv, sizes, heights=None, turn=None, when=None, **kw):
        """heights: the vertices' heights, if they are chosen; turn: what the shuffle makes of a list, if that is chosen; when: the numbers that are otherwise arbitrary"""
        Coarse.__init__(self, srv, **kw)
        self.heights, self.turn, self.when = heights, turn, when
        self.sizes = sizes
        self.n = n = sum(sizes)
        self.feeding, self.edges, m = [], [], 0
        for s in sizes:
            self.feeding += list(range(m, m + s)) + [None]
            self.edges.append([(m + k, m + (k + 1) % s) for k in range(s)])
            m += s
        self.feeding.pop()
        self.pairs = {(min(p, q), max(p, q)) for r in self.edges for p, q in r}
        self.items = [K('in', 'item%d' % k) for k in range(n)]
        self.dc = {}
        self.other = set()
        self.summarised = {}
        self.handlers = [self.feed, lookups, self.shuffle, self.relation, self.scalars, self.errors, self.event, self.helper, self.data]
        self.on_final = self.final
        self.good = 0
        self.oks = 0
        self.errs_seen = 0
        self.bad = {}
        self.open = {}
        self.wr = {}
        self.inr = {}
        self.numbers = set()
        self.irr = {}
        self.left = {}

    # ------------------------------------------------------------ which data is not tracked
    def dontcare(self, ty):
        r = self.dc.get(ty)
        if r is None:
            self.dc[ty] = False
            r = self.dc[ty] = self.kind(ty, 0) == 1
        return r

    def kind(self, ty, depth):
        """1: only trapezoids, query nodes, their positions; 0: neutral; -1: tracked"""
        t = self.T(ty)
        k = t['k']
        if depth > 8:
            return -1
        if k == 'adt':
            s = short(t)
            if t['phantom']:
                return 0
            if t['raw'] in ERRS[:1]:
                return 1
            if s == 'Idx' and t['krate'] == 'triangulate' and len(t['args']) == 1:
                return -1 if short(self.T(t['args'][0])) == 'Nexus' else 1
            if s in ('Trapezoid', 'QueryNode', 'Divider'):
                return 1
            if s in EVENTS or s == 'Coords':
                return -1
            if t['raw'] in self.VECS or t['raw'].startswith('alloc::boxed::Box'):
                return self.kind(t['args'][0], depth + 1)
            if t['krate'] in ('core', 'zot', 'alloc') or t['krate'] == 'triangulate':
                ks = [self.kind(f[1], depth + 1) for v in t['variants'] for f in v['fields']]
                return -1 if -1 in ks else 1 if 1 in ks else (0 if t['kind'] == 'enum' and not ks else -1)
            return -1
        if k in ('slice', 'array', 'ref', 'ptr'):
            return self.kind(t['elem'], depth + 1)
        if k == 'tuple':
            ks = [self.kind(f, depth + 1) for f in t['fields']]
            return -1 if -1 in ks else 1 if 1 in ks else 0
        return -1

    def tracked(self, ty, depth=0):
        return not self.dontcare(ty)

    def isref(self, ty):
        return self.T(ty)['k'] in ('ref', 'ptr')

    def isnexus(self, ty, depth=0):
        """is this a (reference to a) Nexus or a slice of them"""
        t = self.T(ty)
        if t['k'] in ('ref', 'slice'):
            return self.isnexus(t['elem'])
        return short(t) == 'Nexus'

    # ------------------------------------------------------------ contracts
    def feed(self, me, st, fr, t, i, vi, args):
        if i['kind'] != 'unresolved' or trait_of(i, vi) != 'Items':
            return None
        g = st.ghost
        ty = self.place(st, fr, t[3])[2]
        k = g['taken']
        if k >= len(self.feeding):
            return self.result(st, fr, t, Agg(ty, 0, ()))
        g['taken'] = k + 1
        et = self.T(ty)['args'][0]
        v = [x['name'] for x in self.T(et)['variants']].index('ContinuePolygon')
        x = self.feeding[k]
        if x is None:
            return self.result(st, fr, t, Agg(ty, 1, [Agg(et, 1 - v, ())]))
        return self.result(st, fr, t, Agg(ty, 1, [Agg(et, v, [self.mk(self.fields(et, v)[0], self.items[x])])]))

    def shuffle(self, me, st, fr, t, i, vi, args):
        if i['krate'] != 'rand' or i['name'] != 'shuffle' or not isinstance(args[0], Ref):
            return None
        v = self.read(st, args[0].cell, args[0].path)
        if self.dataseq(v):
            return None
        v = self.asvec(v)
        if v.w:
            v = self.vmat(st, v)
        if any(c[0] != 'e' for c in v.ch):
            raise Undecided('shuffle of a list of unknown length')
        alts = []
        ps = itertools.permutations(v.ch)
        if len(st.ghost['ss']) + len(v.ch) < self.n:
            # all orders are tried on the last polygon
            ps = itertools.islice(ps, 1)
        if self.turn:
            ps = [self.turn(v.ch)]
        for n, p in enumerate(ps):
            k = K('perm', fr.uid, n)
            if st.bl.pop(k, None):
                st.note(('shuffled into', [repr(c[1]) for c in p]))
                self.write(st, args[0].cell, args[0].path, VecV(v.ty, p, (), v.tag))
                return self.result(st, fr, t, Agg(self.place(st, fr, t[3])[2], 0, ()))
            alts.append([('bool', k, True)])
        raise Split(*alts)

    def vertex(self, v):
        """the one vertex this value speaks of"""
        s = [n for n, k in enumerate(self.items) if k in bases(v)]
        return s[0] if len(s) == 1 else None

    def coin(self, st, fr, what):
        k = K('coin', what, fr.uid, fr.bb)
        r = self.truth(st, Sym(k, None))
        st.bl.pop(k, None)
        return r

    def pick(self, st, what, options):
        """one of the options, every one is followed"""
        options = list(options)
        if not options:
            raise PathEnd('infeasible')
        if len(options) == 1:
            return options[0]
        alts = []
        for o in options:
            k = K('pick', what, str(o))
            if st.bl.pop(k, None):
                return o
            alts.append([('bool', k, True)])
        raise Split(*alts)

    def order(self, st, a, b, what):
        """how a and b, two neighbours, compare: what is 'low' (as vertices), 'y' or 'x'; -1, 0 or 1"""
        x = (min(a, b), max(a, b))
        if self.heights:
            r = -1 if self.heights[a] < self.heights[b] else 1
            l = -1 if self.heights[x[0]] < self.heights[x[1]] else 1
            if x not in dict(st.ghost['lower']):
                st.ghost['lower'] = tuple(sorted(st.ghost['lower'] + ((x, (l, l, l)),)))
            return r
        known = dict(st.ghost['lower'])
        low, y, z = known.get(x, (None, None, None))
        if what == 'low' and low is None:
            if y == 0:
                low = z = self.pick(st, 'x', (-1, 1) if z is None else (z,) if z else ())
            else:
                low = self.pick(st, 'low', (-1, 1))
        elif what == 'y' and y is None:
            y = self.pick(st, 'y', [o for o in (-1, 0, 1) if low is None or o in (0, low)])
            if y:
                low = y
            elif z is not None:
                if not z or low is not None and low != z:
                    raise PathEnd('infeasible')
                low = z
            elif low is not None:
                z = low
        elif what == 'x' and z is None:
            z = self.pick(st, 'x', (-1, 0, 1) if y != 0 else (-1, 1))
            if y == 0:
                low = z
        known[x] = (low, y, z)
        for ring in self.edges:
            r = [known.get((min(p, q), max(p, q)), (None,))[0] for p, q in ring]
            if None not in r and len({(u < 0) == (p < q) for u, (p, q) in zip(r, ring)}) == 1:
                raise PathEnd('infeasible')
        st.ghost['lower'] = tuple(sorted(known.items()))
        r = dict(low=low, y=y, x=z)[what]
        return r if a < b else -r

    def known(self, a, b):
        return a is not None and b is not None and (min(a, b), max(a, b)) in self.pairs

    def below(self, st, fr, a, b):
        if not self.known(a, b):
            return self.coin(st, fr, 'below')
        return self.order(st, a, b, 'low') < 0

    def coordinate(self, v):
        """('x' or 'y', vertex) if the value is a coordinate of a vertex"""
        if isinstance(v, Sym) and KEYS[v.k][0] == 'app' and KEYS[v.k][1] in ('x', 'y'):
            a = self.vertex(KEYS[v.k][2])
            if a is not None:
                return KEYS[v.k][1], a
        return None, None

    def blur(self, st, x, y):
        """a test of two neighbours that is not understood: it may have told how they are ordered"""
        b = bases(x) | bases(y)
        v = [n for n, k in enumerate(self.items) if k in b]
        if len(v) == 2 and tuple(v) in self.pairs and tuple(v) not in st.ghost['vague']:
            st.ghost['vague'] = tuple(sorted(st.ghost['vague'] + (tuple(v),)))

    def scalar(self, st, x, y):
        """how two scalars compare, if something is known about that"""
        (w, a), (u, b) = self.coordinate(x), self.coordinate(y)
        if w is None or w != u:
            return None
        if a == b:
            return 0
        if not self.known(a, b):
            return None
        return self.order(st, a, b, w)

    def relation(self, me, st, fr, t, i, vi, args):
        """comparing two vertices by their place"""
        if vi['trait'] is None or vi['trait'].split('::')[-1].split('<')[0] not in ('PartialOrd', 'Ord') or len(args) != 2 or t[4] is None:
            return None
        n = i['name']
        if n not in ('lt', 'le', 'gt', 'ge', 'partial_cmp', 'cmp'):
            return None
        ty = self.opty(fr, t[2][0])
        while ty is not None and self.T(ty)['k'] == 'ref':
            ty = self.T(ty)['elem']
        if ty is None or short(self.T(ty)) not in ('Coords', 'VertexExt'):
            return None
        x, y = (deref(self, st, a) for a in args)
        a, b = self.vertex(x), self.vertex(y)
        rt = self.place(st, fr, t[3])[2]
        if a is not None and a == b:
            o = 0
        else:
            o = -1 if self.below(st, fr, a, b) else 1
        if n in ('partial_cmp', 'cmp'):
            ot = self.T(rt)['args'][0] if n == 'partial_cmp' else rt
            e = Agg(ot, o + 1, ())
            return self.result(st, fr, t, Agg(rt, 1, [e]) if n == 'partial_cmp' else e)
        return self.result(st, fr, t, B(dict(lt=o < 0, le=o <= 0, gt=o > 0, ge=o >= 0)[n]))

    def scalars(self, me, st, fr, t, i, vi, args):
        """tests of single coordinates go either way; vertices give their coordinates"""
        if i['kind'] != 'unresolved' or t[4] is None:
            return None
        tr, n = trait_of(i, vi), i['name']
        ty = self.place(st, fr, t[3])[2]
        if tr == 'Vertex' and n in ('x', 'y'):
            return self.result(st, fr, t, self.mk(ty, K('app', n, deref(self, st, args[0]))))
        if tr in ('PartialOrd', 'PartialEq', 'Ord', 'Eq') and self.T(ty)['k'] == 'bool':
            a, b = (deref(self, st, x) for x in args)
            if n in ('eq', 'ne') and (a in [Sym(k, None) for k in self.items] or isinstance(a, Sym) and a.k in self.items):
                if isinstance(b, Sym) and b.k in self.items:
                    return self.result(st, fr, t, B((a.k == b.k) == (n == 'eq')))
            o = self.scalar(st, a, b)
            if o is None:
                r = self.coin(st, fr, 'test')
                self.blur(st, a, b)
                return self.result(st, fr, t, B(r))
            return self.result(st, fr, t, B(dict(lt=o < 0, le=o <= 0, gt=o > 0, ge=o >= 0, eq=o == 0, ne=o != 0)[n]))
        if tr in ('PartialOrd', 'Ord') and n in ('partial_cmp', 'cmp'):
            a, b = (deref(self, st, x) for x in args)
            o = self.scalar(st, a, b)
            if o is not None:
                e = Agg(self.T(ty)['args'][0] if n == 'partial_cmp' else ty, o + 1, ())
                return self.result(st, fr, t, Agg(ty, 1, [e]) if n == 'partial_cmp' else e)
        if tr in ('PartialOrd', 'Ord'):
            x = Sym(K('coin', 'order', fr.uid, fr.bb), ty)
            v = self.variant(st, x)
            self.blur(st, *(deref(self, st, z) for z in args))
            y = self.expand(x, None, st)
            if v == 1 and y is not None and y.f:
                w = self.variant(st, y.f[0])
                st.var.pop(getattr(y.f[0], 'k', None), None)
                y = Agg(ty, 1, [Agg(y.f[0].ty, w, ())])
            st.var.pop(x.k, None)
            return self.result(st, fr, t, y if isinstance(y, Agg) else Agg(ty, v, ()))
        return None

    # ------------------------------------------------------------ entering vertices and edges
    def event(self, me, st, fr, t, i, vi, args):
        if i['krate'] != 'alloc' or not args or not isinstance(args[0], Ref) or vi['trait'] is not None:
            return None
        ty = self.opty(fr, t[2][0])
        while ty is not None and self.T(ty)['k'] in ('ref', 'ptr'):
            if not self.T(ty)['mut']:
                return None
            ty = self.T(ty)['elem']
        if ty is None or self.T(ty)['k'] != 'adt' or self.T(ty)['raw'] not in self.VECS:
            return None
        s = short(self.T(self.T(ty)['args'][0]))
        if s not in EVENTS:
            return None
        if i['name'] != 'push':
            if i['name'] in ('reserve', 'shrink_to_fit', 'as_mut_slice', 'deref_mut', 'as_mut_ptr', 'reserve_exact'):
                return None
            raise Undecided('%s on the list of %s' % (i['name'], s))
        x = args[1]
        if not isinstance(x, Agg):
            x = self.expand(x, None, st)
        tt = self.T(x.ty)
        names = [f[0] for f in tt['variants'][0]['fields']]
        tys = self.fields(x.ty, 0)
        g = st.ghost
        if s == 'Nexus':
            vs = [self.vertex(y) for y, f in zip(x.f, tys) if not self.dontcare(f) and not self.T(f).get('phantom') and bases(y)]
            vs = [v for v in vs if v is not None]
            v = vs[0] if vs and len(set(vs)) == 1 else -1
            g['ns'] = g['ns'] + (v,)
            st.note(('vertex entered', v, t[6][:2] if t[6] else None))
        else:
            e = {}
            for nm, y, f in zip(names, x.f, tys):
                ft = self.T(f)
                which = 'min' if 'min' in nm else 'max' if 'max' in nm else nm
                if short(ft) == 'Idx':
                    e['n', which] = self.position(st, y)
                elif short(ft) == 'Coords':
                    e['c', which] = self.vertex(y)
            self.edge(st, e, t[6])
        if len(g['ns']) > self.n:
            self.verdict(st, False, 'more vertices are entered than the polygon has', t[6])
            raise PathEnd('reported')
        if len(g['ss']) > self.n:
            self.verdict(st, False, 'more edges are entered than the polygon has', t[6])
            raise PathEnd('reported')
        return None

    def edge(self, st, e, span):
        g = st.ghost
        ns = g['ns']
        a, b = e.get(('n', 'min')), e.get(('n', 'max'))
        if a is None or b is None or a >= len(ns) or b >= len(ns) or -1 in (ns[a], ns[b]):
            self.verdict(st, None, 'an edge with unknown ends is entered', span)
            g['ss'] = (None,) + g['ss']
            return
        lo, hi = ns[a], ns[b]
        x = (min(lo, hi), max(lo, hi))
        st.note(('edge entered', (lo, hi), span[:2] if span else None))
        g['ss'] = tuple(sorted(g['ss'] + (x,), key=repr))
        for w, z in (('min', lo), ('max', hi)):
            c = e.get(('c', w), z)
            if c != z:
                self.verdict(st, None if c is None else False, 'the %s end of an edge carries the place of another vertex' % dict(min='lower', max='upper')[w], span)
        if x not in self.pairs:
            return self.verdict(st, False, 'an edge between vertices that are not neighbours is entered', span)
        r = dict(g['lower']).get(x, (None, None, None))
        if x in g['vague'] and (r[0] is None or (r[0] < 0) != (lo < hi)):
            return self.verdict(st, None, 'the ends of an edge are ordered by a test that is not understood', span)
        if r[0] is None and r[1] == 0:
            return self.verdict(st, False, 'an edge is entered whose ends are ordered by their height alone', span)
        if r[0] is None:
            self.verdict(st, None, 'the ends of an edge are ordered without comparing them', span)
        elif (r[0] < 0) != (lo < hi):
            self.verdict(st, False, 'an edge is entered from its upper to its lower end', span)
        else:
            self.verdict(st, True, '')
        g['lower'] = tuple(y for y in g['lower'] if y[0] != x)

    def position(self, st, y):
        """position an Idx stands for"""
        d = 0
        while not isinstance(y, Lin):
            if isinstance(y, Sym):
                y = self.expand(y, None, st)
            if not isinstance(y, Agg) or not y.f or d > 6:
                return None
            y = y.f[0]
            d += 1
        for k in range(self.n + 1):
            if st.known_eq(y, Lin(k + 1)):
                return k
        return None

    # ------------------------------------------------------------ functions over untracked data
    def helper(self, me, st, fr, t, i, vi, args):
        if i['krate'] != 'triangulate' or i['kind'] in ('intrinsic', 'drop_glue', 'clone_shim', 'unresolved', 'virtual') or i.get('ctor') or t[4] is None or not i['body']:
            return None
        tys = [self.opty(fr, o) for o in t[2]]
        if any(x is None for x in tys) or any(self.isfn(x) for x in tys):
            return None
        ty = self.place(st, fr, t[3])[2]
        rt = self.T(ty)
        unit = rt['k'] == 'tuple' and not rt['fields']
        err = self.errtype(ty)
        alldc = bool(tys) and all(self.kind(x, 0) >= 0 for x in tys)
        if rt['k'] == 'bool':
            if alldc and any(self.dontcare(x) for x in tys) or len(tys) >= 3 and all(self.coordslike(x) for x in tys):
                return self.result(st, fr, t, B(self.coin(st, fr, 'test')))
            return None
        if rt['k'] == 'uint' and tys and all(self.T(x)['k'] in ('uint', 'int') for x in tys):
            if self.number(i):
                if self.when is not None:
                    return self.result(st, fr, t, Lin(self.when))
                k = K('coin', 'number')
                self.numbers.add(k)
                return self.result(st, fr, t, self.mk(ty, k))
            return None
        if not (self.dontcare(ty) or unit) or self.isref(ty) or self.hasref(ty):
            return None
        for x in tys:
            if self.hasmut(x) and not (self.T(x)['k'] == 'ref' and (self.dontcare(self.T(x)['elem']) or self.isnexus(x) and not self.rewrites(i['n']))):
                return None
        if unit and not any(self.hasmut(x) for x in tys):
            # a check: does nothing but fail
            return self.result(st, fr, t, Agg(ty, 0, ())) if i['name'].startswith('check') or alldc else None
        var = None
        if err:
            r = Sym(K('call', fr.inst, fr.bb), ty)
            var = 0
            st.var.pop(r.k, None)
        else:
            r = self.mk(ty, self.name(st, fr, 'res')) if not unit else Agg(ty, 0, ())
        for n, (a, x) in enumerate(zip(args, tys)):
            tt = self.T(x)
            if tt['k'] == 'ref' and tt['mut'] and isinstance(a, Ref) and self.dontcare(tt['elem']):
                self.write(st, a.cell, a.path, self.mk(tt['elem'], self.name(st, fr, 'arg%d' % n, (a.cell, a.path))))
        if err:
            r = self.fresh_result(st, fr, r, var)
        self.summarised[i['full']] = self.summarised.get(i['full'], 0) + 1
        return self.result(st, fr, t, r)

    def touches(self, b, pl):
        """does writing this place change something tracked that lies behind a reference"""
        ty = b['locals'][pl[0]]
        through = False
        for e in pl[1]:
            t = self.T(ty) if ty is not None else None
            if ty is None or through and self.dontcare(ty):
                return ty is None
            if e[0] == '*':
                through = True
                ty = t.get('elem') if t['k'] in ('ref', 'ptr') else (t['args'][0] if t['k'] == 'adt' else None)
            elif e[0] == 'f':
                ty = e[2]
            elif e[0] in ('i', 'ci', 'ss'):
                ty = self.elemty(ty)
        return through and (ty is None or not self.dontcare(ty))

    def coordslike(self, ty):
        t = self.T(ty)
        while t['k'] == 'ref':
            t = self.T(t['elem'])
        return short(t) == 'Coords'

    def rewrites(self, n):
        """may the function change anything of a Nexus but its trapezoids?"""
        r = self.wr.get(n)
        if r is None:
            self.wr[n] = False
            r = self.wr[n] = self._rewrites(n)
        return r

    def _rewrites(self, n):
        b = self.body(n)
        if b is None:
            return True

        def touched(pl):
            """does the place lie in a tracked part of a Nexus, or is it a whole one behind a reference"""
            ty = b['locals'][pl[0]]
            through = False
            inside = False
            for e in pl[1]:
                t = self.T(ty) if ty is not None else None
                if e[0] == '*':
                    through = True
                    ty = t.get('elem') if t['k'] in ('ref', 'ptr') else (t['args'][0] if t['k'] == 'adt' else None)
                elif e[0] == 'f':
                    if t is not None and short(t) == 'Nexus' and through:
                        if not self.dontcare(e[2]) and not self.T(e[2]).get('phantom'):
                            return True
                        inside = True
                    ty = e[2]
                elif e[0] in ('i', 'ci', 'ss'):
                    ty = self.elemty(ty)
                if ty is None:
                    return True
            return through and not inside and short(self.T(ty)) == 'Nexus'
        for bl in b['blocks']:
            for s in bl['s']:
                if s[0] == '=':
                    if touched(s[1]):
                        return True
                    if s[2][0] in ('ref', 'rawptr') and s[2][0] == 'rawptr' and touched(s[2][1]):
                        return True
                elif s[0] == 'setdiscr' and touched(s[1]):
                    return True
            t = bl['t']
            if t and t[0] == 'call':
                if touched(t[3]):
                    return True
                tys = []
                for o in t[2]:
                    tys.append(self.opty_of(b, o))
                for x in tys:
                    if x is not None and self.hasmut(x) and self.T(x)['k'] == 'ref':
                        e = self.T(x)['elem']
                        if self.kind(e, 0) >= 0:
                            continue
                        if t[1][0] == 'op':
                            return True
                        ci = self.inst(t[1][1])
                        vn = self.inst(t[1][2])['name'] if t[1][2] is not None else ci['name']
                        if ci['krate'] == 'triangulate' and ci['body']:
                            if self.rewrites(t[1][1]):
                                return True
                        elif vn in ('index_mut', 'index', 'deref_mut', 'iter_mut', 'get_mut', 'as_mut', 'unwrap', 'into_iter', 'next'):
                            continue
                        else:
                            return True
            elif t and t[0] == 'drop' and touched(t[1]):
                return True
        return False

    def opty_of(self, b, op):
        class F(object):
            body = b
        return self.opty(F, op)

    def errors(self, me, st, fr, t, i, vi, args):
        """a path that met an internal error is of no interest: it does not end in success (C08)"""
        if Coarse.errors(self, me, st, fr, t, i, vi, args) is None:
            return None
        self.errs_seen += 1
        raise PathEnd('error')

    # ------------------------------------------------------------ equal states continue once; untracked data is forgotten
    def head(self, st, fr, bb, back):
        if self.inert(fr.inst, fr.body, bb):
            r = self.leave(st, fr, bb)
            if r is not None:
                return r
        return self.settle(st)

    def ret(self, st, fr):
        r = Interp.ret(self, st, fr)
        if r and st.frames and fr.cont is None and len(fr.body['blocks']) > 20 and self.inst(fr.inst)['krate'] == 'triangulate':
            return self.settle(st)
        return r

    def goto(self, st, fr, tgt):
        if len(fr.body['blocks']) > 20:
            if self.inst(fr.inst)['krate'] == 'triangulate' and tgt not in fr.body['_heads'] and self.inert(fr.inst, fr.body, tgt):
                r = self.leave(st, fr, tgt)
                if r is not None:
                    return r
            return Coarse.goto(self, st, fr, tgt)
        return Interp.goto(self, st, fr, tgt)

    def leave(self, st, fr, bb=None):
        """the rest of the function only works on untracked data: it may change all of it and succeed"""
        ty = fr.body['locals'][0]
        t = self.T(ty)
        rb = [n for n, b in enumerate(fr.body['blocks']) if b['t'] and b['t'][0] == 'return']
        if not rb:
            return None
        if t['k'] == 'tuple' and not t['fields']:
            v = Agg(ty, 0, ())
        elif self.errtype(ty) and self.T(t['args'][0])['k'] == 'tuple' and not self.T(t['args'][0])['fields']:
            v = Agg(ty, 0, [Agg(t['args'][0], 0, ())])
        else:
            return None
        w = self.outcome(fr.body, fr.bb if bb is None else bb)
        if w == 'error':
            raise PathEnd('error')
        if w != 'fine':
            return None
        st.mem[fr.uid, 0] = v
        fr.bb, fr.si = rb[0], 0
        self.left[self.inst(fr.inst)['full']] = 1
        return self.settle(st)

    def outcome(self, b, bb):
        """which results the blocks from here on can set"""
        m = b.setdefault('_outcome', {})
        if bb in m:
            return m[bb]
        ty = b['locals'][0]
        unit = self.T(ty)['k'] == 'tuple'
        r = set()
        todo, seen = [bb], {bb}
        while todo:
            n = todo.pop()
            for s in b['blocks'][n]['s']:
                if s[0] == '=' and s[1][0] == 0:
                    x = s[2]
                    r.add('fine' if unit else 'odd' if s[1][1] or x[0] != 'agg' or x[1][0] != 'adt' else 'error' if x[1][2] == 1 else 'fine')
                elif s[0] == 'setdiscr' and s[1][0] == 0:
                    r.add('odd')
            t = b['blocks'][n]['t']
            if t and t[0] == 'call' and t[3][0] == 0:
                ci = self.inst(t[1][1]) if t[1][0] != 'op' else None
                r.add('error' if ci is not None and 'from_residual' in ci['name'] else 'odd')
            for x in b['_succ'][n]:
                if x not in seen:
                    seen.add(x)
                    todo.append(x)
        m[bb] = 'odd' if 'odd' in r else 'fine' if 'fine' in r else 'error' if r else 'odd'
        return m[bb]

    def inert(self, inst, body, bb):
        k = (inst, bb)
        r = self.inr.get(k)
        if r is None:
            self.inr[k] = False
            r = self.inr[k] = self._inert(inst, body, bb)
        return r

    def _inert(self, inst, body, bb):
        """can nothing that is tracked be changed from this block on, in what the function was given"""
        todo, seen = [bb], {bb}
        while todo:
            n = todo.pop()
            b = body['blocks'][n]
            for s in b['s']:
                if s[0] == '=' and self.touches(body, s[1]):
                    return False
                if s[0] == 'setdiscr' and self.touches(body, s[1]):
                    return False
            t = b['t']
            if not t:
                return False
            if t[0] == 'call':
                if self.touches(body, t[3]) or t[1][0] == 'op':
                    return False
                ci = self.inst(t[1][1])
                vn = self.inst(t[1][2])['name'] if t[1][2] is not None else ci['name']
                for o in t[2]:
                    x = self.opty_of(body, o)
                    if x is None:
                        return False
                    if not self.hasmut(x):
                        continue
                    e = self.T(x)
                    if e['k'] != 'ref':
                        return False
                    e = e['elem']
                    if self.kind(e, 0) >= 0 or self.isnexus(x) and not self.rewrites(t[1][1]):
                        continue
                    if ci['krate'] == 'triangulate' and ci['body']:
                        if not self.inert(t[1][1], self.body(t[1][1]), 0):
                            return False
                    elif vn in ('index_mut', 'index', 'deref_mut', 'iter_mut', 'get_mut', 'as_mut', 'unwrap', 'into_iter', 'next'):
                        continue
                    else:
                        return False
            elif t[0] == 'drop':
                if self.touches(body, t[1]):
                    return False
            elif t[0] not in ('goto', 'switch', 'assert', 'return', 'unreachable', 'resume', 'terminate'):
                return False
            nxt = body['_succ'][n]
            for x in nxt:
                if x not in seen:
                    seen.add(x)
                    todo.append(x)
        return True

    def settle(self, st):
        self.forget(st)
        return Coarse.settle(self, st)

    def forget(self, st):
        mine = set()

        def top(name):
            k = K('top', name)
            mine.add(k)
            return k

        def walk(v, ty, name):
            if v is UNDEF or v is None or isinstance(v, FnV):
                return v
            if isinstance(v, (Agg, Sym, VecV)) and v.ty is not None:
                ty = v.ty
            if isinstance(v, Ref):
                p = []
                for n, e in enumerate(v.path):
                    if e[0] in ('i', 'sub') and any(self.junk(x) for x in e[1:]):
                        e = (e[0],) + tuple(Lin.sym(top((name, n, m))) if self.junk(x) else x for m, x in enumerate(e[1:]))
                    p.append(e)
                return Ref(v.cell, tuple(p))
            if ty is not None and self.dontcare(ty) and not self.isref(ty) and not self.hasref(ty):
                if isinstance(v, VecV):
                    e = self.unknown(v).ch[0][4]
                    k = top(name)
                    return VecV(v.ty, [('s', k, ZERO, Lin.sym(K('len', Sym(k, v.ty))), e)])
                if self.T(ty)['k'] == 'adt' and self.T(ty)['raw'] in ERRS[:1]:
                    return Sym(K('in', 'error'), ty)
                x = self.mk(ty, top(name))
                if isinstance(v, Agg) and isinstance(v.v, int) and self.T(ty)['k'] == 'adt' and self.T(ty)['kind'] == 'enum' and self.T(ty)['krate'] in ('core',):
                    # the variant of an option or result is control
                    return Agg(ty, v.v, [walk(y, f, (name, n)) for n, (y, f) in enumerate(zip(v.f, self.fields(ty, v.v)))])
                return x
            if isinstance(v, VecV):
                return VecV(v.ty, [('e', walk(c[1], None, (name, n))) if c[0] == 'e' else c for n, c in enumerate(v.ch)], v.w, v.tag)
            if isinstance(v, Agg):
                try:
                    fs = self.fields(ty, v.v if isinstance(v.v, int) else 0) if ty is not None else []
                except Undecided:
                    fs = []
                if len(fs) != len(v.f):
                    fs = [None] * len(v.f)
                return Agg(v.ty, v.v, [walk(x, f, (name, n)) for n, (x, f) in enumerate(zip(v.f, fs))])
            return v

        mine |= self.numbers
        f = st.frames
        for x in f:
            for n in self.idle(x.body):
                if (x.uid, n) in st.mem:
                    st.mem[x.uid, n] = Lin.sym(top((x.uid, n)))
        types = {(x.uid, n): ty for x in f for n, ty in enumerate(x.body['locals'])}
        for c in list(st.mem):
            st.mem[c] = walk(st.mem[c], types.get(c, self.celltype.get(c)), c)

        def clean(k):
            return not (BASE[k] & mine)
        st.cons = frozenset(l for l in st.cons if all(clean(k) for k in l.syms()))
        st.var = {k: x for k, x in st.var.items() if clean(k)}
        st.bl = {k: x for k, x in st.bl.items() if clean(k)}
        st.od = {}

    def idle(self, b):
        """integer variables of a body that only enter their own updates and numbers that are taken to be arbitrary"""
        r = b.get('_idle')
        if r is not None:
            return r
        r = {n for n, ty in enumerate(b['locals']) if n > b['args'] and ty is not None and
             (self.T(ty)['k'] in ('uint', 'int') or self.T(ty)['k'] == 'tuple' and len(self.T(ty)['fields']) == 2 and
              [self.T(f)['k'] for f in self.T(ty)['fields']] in (['uint', 'bool'], ['int', 'bool']))}

        def used(x):
            o = []
            core.ops(x, o)
            return {p[0] for p in o} | {e[1] for p in o for e in p[1] if e[0] == 'i'}
        uses = []
        for bl in b['blocks']:
            for s in bl['s']:
                if s[0] == '=':
                    uses.append((s[1][0] if not s[1][1] and s[2][0] in ('use', 'bin', 'cast') else None, used(s[2])))
                    uses.append((None, {e[1] for e in s[1][1] if e[0] == 'i'}))
                elif s[0] not in ('live', 'dead'):
                    uses.append((None, used(s[1:])))
            t = bl['t']
            if not t or t[0] in ('assert', 'goto'):
                continue
            if t[0] == 'switch':
                uses.append((None, used([t[1]])))
            elif t[0] == 'call':
                if t[1][0] == 'op':
                    uses.append((None, used([t[1][1]])))
                elif not t[3][1] and self.T(b['locals'][t[3][0]])['k'] == 'uint' and self.number(self.inst(t[1][1])):
                    continue
                uses.append((None, used(t[2])))
        r.discard(0)
        while True:
            k = {n for d, o in uses if d not in r for n in o}
            if not k & r:
                break
            r -= k
        b['_idle'] = r
        return r

    def number(self, i):
        """a function of the crate from integers through floating point to an integer: it may return any number"""
        if i['krate'] != 'triangulate' or not i['body']:
            return False
        b = self.body(i['n'])
        return b is not None and any(self.T(x)['k'] == 'float' for x in b['locals']) and \
            all(self.T(x)['k'] in ('uint', 'int') for x in b['locals'][1:b['args'] + 1])

    def junk(self, x):
        """a position computed from untracked data"""
        return isinstance(x, Lin) and x.const() is None and not any(k in self.items for k in bases(x))

    # ------------------------------------------------------------ verdict
    def verdict(self, st, ok, what, span=None):
        if ok is True:
            self.good += 1
        elif ok is False:
            self.bad.setdefault(what, (span, st.trace_list()[-30:]))
        else:
            self.open.setdefault(what, span)

    def final(self, st, v):
        x = v if isinstance(v, Agg) else self.expand(v, None, st)
        if not isinstance(x, Agg):
            return self.verdict(st, None, 'result not understood')
        if x.v != 0:
            self.errs_seen += 1
            return
        self.oks += 1
        g, n = st.ghost, self.n
        ns = g['ns']
        if g['taken'] < len(self.feeding):
            return self.verdict(st, False, 'success although only %d of %d vertices were asked for' % (len([x for x in self.feeding[:g['taken']] if x is not None]), n))
        if -1 in ns:
            self.verdict(st, None, 'a vertex of unknown origin is entered')
        elif sorted(ns) != list(range(n)):
            self.verdict(st, False, 'vertices entered %s instead of each of the %d once' % (list(ns), n))
        else:
            self.verdict(st, True, '')
        got = list(g['ss'])
        if None in got:
            return
        want = sorted(self.pairs)
        if sorted(got) != want:
            self.verdict(st, False, 'edges entered %s instead of %s' % (sorted(got), want))
        else:
            self.verdict(st, True, '')


def run(srv, sizes, **kw):
    """one exploration"""
    rs = [r for r in srv.roots() if r['raw'] == 'harness::trapezoidize']
    me = Edges(srv, sizes, **kw)
    me.env_inst = rs[0]['inst']
    st = CState()
    st.ghost = dict(taken=0, ns=(), ss=(), lower=(), vague=())
    b = me.body(rs[0]['inst'])
    a = [me.mk(b['locals'][1], K('in', 'p'))]
    me.push(st, rs[0]['inst'], a, None, None)
    me.explore([st])
    return me


def orders(n):
    """some heights of the vertices of a ring, some orders of its edges"""
    up = list(range(n))
    saw = [k // 2 if k % 2 == 0 else n + k for k in range(n)]
    hill = [k if k <= n // 2 else n - k + 0.5 for k in range(n)]
    yield 'monotone, edges in order', up, lambda c: tuple(c)
    yield 'zigzag, edges in reverse order', saw, lambda c: tuple(c)[::-1]
    yield 'hill, every other edge', hill, lambda c: tuple(c)[::2] + tuple(c)[1::2]


def longer(ctx, srv, seconds):
    rs = [r for r in srv.roots() if r['raw'] == 'harness::trapezoidize']
    near, far = numbers.turns(srv, [rs[0]['inst']], 5, 300, ('triangulate', 'harness'))
    ctx.sample(dict(numbers_compared_beyond_exhaustive_sizes=near + far))
    for x in far:
        ctx.open('the code compares with %d: polygons of that size are not analysed' % x)
    end = time.time() + (seconds if not near else 4 * seconds)
    todo = [(n, o, w) for n in sorted({9, 17} | {x + d for x in near for d in (0, 1, 2)}) for o in (0, 1, 2)
            for w in ((None,) if n < 10 else (10 ** 6, n // 2) if n < 80 else (10 ** 6,))]
    # every size once before the others
    for n, o, w in sorted(todo, key=lambda x: (x[1], x[2] is not None and x[2] < 10 ** 6, x[0])):
        if ctx.violations or time.time() > end:
            ctx.count('longer polygons not reached')
            continue
        name, heights, turn = list(orders(n))[o]
        one(ctx, srv, (n,), 'polygon of %d vertices (%s)' % (n, name), end - time.time() + 20, heights=heights, turn=turn, when=w)
        ctx.count('longer polygons')


def check(ctx, srv, jobs):
    for sizes in jobs:
        if ctx.violations:
            break
        if not one(ctx, srv, sizes, 'polygons of %s vertices' % ' and '.join(map(str, sizes)), min(ctx.left() - 20, 260 if ctx.tier == 'quick' else 600)):
            break
    if not ctx.violations:
        longer(ctx, srv, 60 if ctx.tier == 'quick' else 120)


def one(ctx, srv, sizes, label, seconds, **kw):
    try:
        me = run(srv, sizes, limit=4000000, deadline=time.time() + seconds, **kw)
    except Undecided as e:
        ctx.open('%s: %s' % (label, e))
        return False
    for w, (sp, tr) in me.bad.items():
        ctx.bad('edges/%s' % w.split(' instead')[0][:40], '%s: %s' % (label, w), sp, tr)
    for w, sp in me.open.items():
        ctx.open('%s: %s' % (label, w))
    if not me.oks and not me.bad and not me.undecided:
        ctx.open('%s: no success reached' % label)
    ctx.absorb(me, me.good, label)
    ctx.sample(dict(vertices=list(sizes), what=label, successes=me.oks, equal_states_merged=me.merged, left_early=sorted(me.left), functions_over_untracked_data=sorted(me.summarised)[:20]))
    return True
