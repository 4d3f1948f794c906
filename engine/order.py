"""C17: the vertex order, the side test, how coordinates are read, and the point-location step that uses them."""
from common import *
import poly as P


def pick(srv, pred):
    return [r for r in srv.roots() if r['kind'] in ('fn', 'assocfn') and pred(r, srv.inst(r['inst']))]


def base(i):
    return (i['selfty'] or '').split('<')[0].split('::')[-1]


def reals(me, st, fr, t, i, vi, args):
    """arithmetic methods of the opaque coordinate type, and coordinate access of an opaque vertex"""
    if i['kind'] != 'unresolved':
        return None
    tr = trait_of(i, vi)
    if tr in ('Real', 'Float', 'FloatCore') and i['name'] in ('mul_add', 'abs', 'min', 'max', 'signum', 'abs_sub'):
        ty = me.place(st, fr, t[3])[2]
        return me.result(st, fr, t, Sym(K('op', i['name'], *args), ty))
    if tr == 'Vertex' and i['name'] in ('x', 'y'):
        return me.result(st, fr, t, me.mk(me.place(st, fr, t[3])[2], K('app', i['name'], deref(me, st, args[0]))))
    if tr == 'TrapezoidationStructure' and i['name'] in ('ps', 'ns', 'ss', 'ts', 'qs'):
        return me.result(st, fr, t, me.mk(me.place(st, fr, t[3])[2], K('app', i['name'])))
    return None


class Case(object):
    """abstract run of one function on named inputs"""

    def __init__(self, srv, root, **kw):
        self.run = Run(srv, root['raw'], **kw)
        self.run.root = root
        self.me = self.run.me
        self.me.env_inst = root['inst']
        self.me.eq_mode = lambda ty: 'ord'
        self.me.handlers = [reals]
        self.finals = []
        self.me.on_final = lambda st, v: self.finals.append((st, v))
        self.cells = []

    def arg(self, n, name):
        """value, or reference to a cell holding it, of the named input"""
        me = self.me
        ty = self.run.argty(n)
        t = me.T(ty)
        if t['k'] == 'ref':
            cell = ('arg', n)
            self.run.st.mem[cell] = me.mk(t['elem'], K('in', name))
            me.celltype[cell] = t['elem']
            return Ref(cell)
        return me.mk(ty, K('in', name))

    def go(self, args):
        self.run.start(args)
        return self.finals


def atom_of(srv, coords, which, name):
    """the coordinate `which` of the input `name`, as read by the accessor"""
    c = Case(srv, coords[which])
    f = c.go([c.arg(0, name)])
    if len(f) != 1 or not isinstance(f[0][1], Sym):
        raise Undecided('accessor %s' % which)
    return f[0][1]


def accessors(srv, ty):
    r = {}
    for w in ('x', 'y'):
        rs = pick(srv, lambda q, i: i['name'] == w and base(i) == ty and not i['trait'])
        if len(rs) != 1:
            raise Undecided('%s::%s not found' % (ty, w))
        r[w] = rs[0]
    return r


class Judge(object):
    """decides, for every outcome of a function, whether it is the expected one: proved from the order facts of the path, or
    refuted by values that satisfy the facts"""

    def __init__(self, ctx, where):
        self.ctx, self.where = ctx, where
        self.good = 0

    def outcome(self, st, got, targets, expected, atoms, concrete, valid=None, span=None):
        """got: outcome; expected(signs) -> set of allowed outcomes; concrete(env) -> set of allowed outcomes"""
        f = P.Facts(st)
        if f.dead:
            return
        if all(got in expected(s) for s in P.completions(f, targets)):
            self.good += 1
            return
        for env in P.grid(atoms):
            if valid is not None and not valid(env):
                continue
            if f.holds(env) is not True:
                continue
            if got not in concrete(env):
                names = ', '.join('%s=%s' % (kstr(k), v) for k, v in sorted(env.items()))
                self.ctx.bad(self.where, '%s answers %s where %s is right, for example for %s' % (
                    self.where, got, ' or '.join(map(str, sorted(concrete(env), key=str))), names), span, st.trace_list())
                return
        self.ctx.open('%s: outcome %s on a path with order facts %s' % (self.where, got, [(kstr(a), ''.join(sorted(r)), kstr(b)) for (a, b), r in st.od.items()][:6]))


def sub(a, b):
    return P.add(P.poly(a), P.poly(b), -1)


def bool_of(me, st, v):
    if isinstance(v, Lin) and v.const() is not None:
        return bool(v.c)
    if isinstance(v, Sym):
        b = st.bl.get(v.k)
        if b is not None:
            return b
    return None


OPS = {'lt': '<', 'le': '<=', 'gt': '>', 'ge': '>=', 'eq': '=', 'ne': '<>'}


def lex(ry, rx):
    return rx if ry == '=' else ry


def cmp_(a, b):
    return '<' if a < b else '>' if a > b else '='


def orders(ctx, srv):
    for ty in ('Coords', 'VertexExt'):
        try:
            acc = accessors(srv, ty)
        except Undecided as e:
            ctx.open('order of %s: %s' % (ty, e))
            continue
        fns = pick(srv, lambda q, i: base(i) == ty and (i['trait'] or '').split('::')[-1] in ('PartialOrd', 'Ord', 'PartialEq') and
                   i['name'] in ('partial_cmp', 'cmp', 'lt', 'le', 'gt', 'ge', 'eq', 'ne'))
        if not any(srv.inst(r['inst'])['name'] == 'partial_cmp' for r in fns):
            ctx.open('no order of %s found' % ty)
        for root in fns:
            n = srv.inst(root['inst'])['name']
            where = '%s::%s' % (ty, n)
            at = {(w, s): atom_of(srv, acc, w, s) for w in 'xy' for s in ('self', 'other')}
            c = Case(srv, root, limit=20000)
            fin = c.go([c.arg(0, 'self'), c.arg(1, 'other')])
            j = Judge(ctx, where)
            ty_, tx_ = sub(at['y', 'self'], at['y', 'other']), sub(at['x', 'self'], at['x', 'other'])
            atoms = [at[w, s].k for w in 'yx' for s in ('self', 'other')]
            ys, yo, xs, xo = atoms

            def relc(env):
                return lex(cmp_(env[ys], env[yo]), cmp_(env[xs], env[xo]))
            for st, v in fin:
                if n in ('partial_cmp', 'cmp'):
                    me = c.me
                    if isinstance(v, Sym):
                        v = me.expand(v, None, st) or v
                    got = None
                    if isinstance(v, Agg):
                        o = v
                        if n == 'partial_cmp':
                            o = v.f[0] if v.v == 1 else 'none'
                        if o == 'none':
                            # allowed only where something compared was unordered
                            if any('u' in r for r in st.od.values()):
                                j.good += 1
                                continue
                            got = 'none'
                        else:
                            if isinstance(o, Sym):
                                o = me.expand(o, None, st) or o
                            if isinstance(o, Agg) and isinstance(o.v, int):
                                got = {'Less': '<', 'Equal': '=', 'Greater': '>'}.get(me.T(o.ty)['variants'][o.v]['name'])
                    if got is None:
                        ctx.open('%s: result %r' % (where, v))
                        continue
                    j.outcome(st, got, [ty_, tx_], lambda s: {lex(s[0], s[1])}, atoms, lambda env: {relc(env)})
                else:
                    got = bool_of(c.me, st, v)
                    if got is None:
                        ctx.open('%s: result %r' % (where, v))
                        continue
                    want = OPS[n]
                    j.outcome(st, got, [ty_, tx_], lambda s: {lex(s[0], s[1]) in want}, atoms, lambda env: {relc(env) in want})
            ctx.absorb(c.me, j.good, where)
            ctx.sample(dict(function=where, outcomes=len(fin), proved=j.good))
            if not fin:
                ctx.open('%s: no outcome' % where)


def sides(srv, acc, names):
    """targets and specification of the side test for inputs (c_min, c_max, c) given as values readable by the accessors"""
    return {(w, n): atom_of(srv, acc, w, n) for w in 'xy' for n in names}


def side_spec(x0, y0, x1, y1, x, y):
    """coordinates as terms; returns (targets, expected(signs), concrete(env), atoms)"""
    t = [sub(y, y1), sub(y, y0), sub(x, x1), sub(x, x0),
         P.add(P.mul(sub(x0, x1), sub(y, y1)), P.mul(sub(y0, y1), sub(x, x1)), -1)]
    pr = [P.poly(v) for v in (x0, y0, x1, y1, x, y)]

    def expected(s):
        return {s[2] == '<' if s[0] == '=' else s[3] == '<' if s[1] == '=' else s[4] == '<'}

    def concrete(env):
        a0, b0, a1, b1, a, b = [P.evaluate(v, env) for v in (x0, y0, x1, y1, x, y)]
        return {a < a1 if b == b1 else a < a0 if b == b0 else (a0 - a1) * (b - b1) < (b0 - b1) * (a - a1)}

    def valid(env):
        a0, b0, a1, b1 = [P.evaluate(v, env) for v in (x0, y0, x1, y1)]
        return (b0, a0) < (b1, a1)
    return t, expected, concrete, valid


def side_test(ctx, srv):
    acc = accessors(srv, 'Coords')
    fs = pick(srv, lambda q, i: i['name'] == 'is_left_of_line' and not i['selfty'])
    if not fs:
        ctx.open('side test: is_left_of_line not found')
    for root in fs:
        at = sides(srv, acc, ('c_min', 'c_max', 'c'))
        c = Case(srv, root, limit=20000)
        fin = c.go([c.arg(0, 'c_min'), c.arg(1, 'c_max'), c.arg(2, 'c')])
        v = [at[w, n] for n in ('c_min', 'c_max', 'c') for w in 'xy']
        judge_bool(ctx, c, 'is_left_of_line', fin, side_spec(*v), [x.k for x in v])
    # the side test of a stored segment: made from its ends, then asked
    mk = pick(srv, lambda q, i: i['name'] == 'new' and base(i) == 'Segment')
    ask = pick(srv, lambda q, i: i['name'] == 'is_on_left' and base(i) == 'Segment')
    if not mk or not ask:
        ctx.open('side test of a segment: constructor or test not found')
        return
    c0 = Case(srv, mk[0])
    if c0.run.body['args'] != 4:
        ctx.open('Segment::new takes other arguments')
        return
    f = c0.go([c0.arg(0, 'ni_min'), c0.arg(1, 'ni_max'), c0.arg(2, 'c_min'), c0.arg(3, 'c_max')])
    if len(f) != 1:
        ctx.open('Segment::new')
        return
    at = sides(srv, acc, ('c_min', 'c_max', 'c'))
    c = Case(srv, ask[0], limit=20000)
    seg = ('arg', 'segment')
    c.run.st.mem.update({k: x for k, x in f[0][0].mem.items()})
    c.run.st.mem[seg] = f[0][1]
    fin = c.go([Ref(seg), c.arg(1, 'c')])
    v = [at[w, n] for n in ('c_min', 'c_max', 'c') for w in 'xy']
    judge_bool(ctx, c, 'Segment::is_on_left', fin, side_spec(*v), [x.k for x in v])
    # which end is which
    for w in ('ni_min', 'ni_max'):
        q = pick(srv, lambda q, i: i['name'] == w and base(i) == 'Segment')
        if not q:
            continue
        c2 = Case(srv, q[0])
        c2.run.st.mem[seg] = f[0][1]
        r = c2.go([Ref(seg)])
        exp = c0.arg(0 if w == 'ni_min' else 1, w)
        ok = all(c2.me.same(st, x, exp) is True for st, x in r)
        if ok and r:
            ctx.absorb(c2.me, 1, w)
        elif any(c2.me.same(st, x, exp) is False for st, x in r):
            ctx.bad('Segment::' + w, 'Segment::%s does not return the end it was made with' % w)
        else:
            ctx.open('Segment::' + w)


def judge_bool(ctx, c, where, fin, spec, atoms, span=None):
    t, expected, concrete, valid = spec
    j = Judge(ctx, where)
    for st, v in fin:
        got = bool_of(c.me, st, v)
        if got is None:
            ctx.open('%s: result %r' % (where, v))
            continue
        j.outcome(st, got, t, expected, atoms, concrete, valid, span)
    ctx.absorb(c.me, j.good, where)
    ctx.sample(dict(function=where, outcomes=len(fin), proved=j.good))
    if not fin:
        ctx.open('%s: no outcome' % where)


def reading(ctx, srv):
    """coordinates are read as given"""
    for root in pick(srv, lambda q, i: (i['trait'] or '').split('::')[-1] == 'Vertex' and i['name'] in ('x', 'y')):
        i = srv.inst(root['inst'])
        c = Case(srv, root)
        fin = c.go([c.arg(0, 'v')])
        want = 0 if i['name'] == 'x' else 1
        v0 = c.run.st.mem.get(('arg', 0)) or c.me.mk(c.me.T(c.run.argty(0))['elem'], K('in', 'v'))
        x = v0 if isinstance(v0, Agg) else c.me.expand(v0, None, c.run.st)
        if x is None or len(x.f) != 2:
            continue
        where = '<%s as Vertex>::%s' % (i['selfty'], i['name'])
        verdict(ctx, c, where, fin, x.f[want], 'does not read its %s component' % ('first', 'second')[want])
    try:
        ext, acc = accessors(srv, 'VertexExt'), accessors(srv, 'Coords')
    except Undecided as e:
        ctx.open(str(e))
        return
    for w in 'xy':
        c = Case(srv, ext[w])
        a = c.arg(0, 'v')
        inner = None
        fin = c.go([a])
        v0 = c.me.expand(c.me.mk(c.me.T(c.run.argty(0))['elem'], K('in', 'v')), None, c.run.st)
        exp = Sym(K('app', w, v0.f[0]), None)
        verdict(ctx, c, 'VertexExt::' + w, fin, exp, 'does not read the vertex\'s %s' % w)
    co = pick(srv, lambda q, i: i['name'] == 'coords' and base(i) == 'VertexExt')
    if not co:
        ctx.open('VertexExt::coords not found')
    for root in co:
        c = Case(srv, root)
        fin = c.go([c.arg(0, 'v')])
        v0 = c.me.expand(c.me.mk(c.me.T(c.run.argty(0))['elem'], K('in', 'v')), None, c.run.st)
        for st, v in fin:
            for w in 'xy':
                c2 = Case(srv, acc[w])
                cell = ('arg', 'coords')
                c2.run.st.mem[cell] = v
                f2 = c2.go([Ref(cell)])
                verdict(ctx, c2, 'Coords::%s of VertexExt::coords' % w, f2, Sym(K('app', w, v0.f[0]), None), 'is not the vertex\'s %s' % w)
        ctx.absorb(c.me, 0, 'coords')


def verdict(ctx, c, where, fin, exp, text):
    good = 0
    for st, v in fin:
        s = c.me.same(st, v, exp)
        if s is True:
            good += 1
        elif s is False:
            ctx.bad(where, '%s %s: it yields %r' % (where, text, v), None, st.trace_list())
        else:
            ctx.open('%s: %r' % (where, v))
    ctx.absorb(c.me, good, where)
    if not fin:
        ctx.open(where + ': no outcome')


def location(ctx, srv):
    """one step of the point location: at a horizontal divider the lower side iff c <= divider, at an edge the left side iff the
    side test says so; at a leaf that leaf"""
    rs = pick(srv, lambda q, i: i['name'] == 'find_trapezoid_from_root')
    if not rs:
        ctx.open('point location not found')
        return
    acc = accessors(srv, 'Coords')
    where = 'find_trapezoid_from_root'
    c = Case(srv, rs[0], exact=True, delay=2, limit=100000)
    me = c.me
    fin = c.go([c.arg(0, 'structure'), c.arg(1, 'c'), c.arg(2, 'root')])
    root = c.arg(2, 'root')
    good = 0
    j = Judge(ctx, where)
    for st, v in fin:
        if not (isinstance(v, Agg) and len(v.f) == 2):
            v = me.expand(v, None, st) if isinstance(v, Sym) else v
        qs = None
        for k in list(st.mem):
            if isinstance(st.mem[k], VecV) and isinstance(k, tuple) and k[0] == 'd' and 'qs' in KEYS[k[1].k]:
                qs = st.mem[k]
        if qs is None or not isinstance(v, Agg):
            ctx.open(where + ': the table of query nodes is not recognised')
            continue
        cur = root
        for depth in range(4):
            pos = position(srv, cur)
            node = me.elem(qs.ch[0], qs.ch[0][2] + pos) if len(qs.ch) == 1 else None
            if node is None:
                break
            x = me.expand(node, None, st) if isinstance(node, Sym) else node
            if x is None:
                ctx.open(where + ': a node is used without looking at its kind')
                break
            vn = me.T(x.ty)['variants'][x.v]['name']
            if vn == 'Sink':
                a, b = me.same(st, v.f[0], cur), me.same(st, v.f[1], x.f[0])
                if a is True and b is True:
                    good += 1
                elif a is False or b is False:
                    ctx.bad(where + '/leaf', '%s does not return the leaf it reached and its trapezoid: %r' % (where, v), None, st.trace_list())
                break
            # a branch: which way did it go?
            left, right, br = x.f
            bx = me.expand(br, None, st) if isinstance(br, Sym) else br
            if bx is None:
                ctx.open(where + ': a branch is taken without looking at its kind')
                break
            nxt = None
            for side, child in (('left', left), ('right', right)):
                if me.same(st, v.f[0], child) is True or mentions(srv, st, me, qs, child):
                    nxt = (side, child)
                    break
            if nxt is None:
                ctx.open(where + ': the child taken is not recognised')
                break
            bn = me.T(bx.ty)['variants'][bx.v]['name']
            p = read_coords(srv, acc, me, c.arg(1, 'c'))
            got = nxt[0] == 'left'
            if bn == 'Y':
                d = read_coords(srv, acc, me, bx.f[0])
                ty_, tx_ = sub(p[1], d[1]), sub(p[0], d[0])
                atoms = [p[1].k, d[1].k, p[0].k, d[0].k]
                j.outcome(st, got, [ty_, tx_], lambda s: {lex(s[0], s[1]) in '<='}, atoms,
                          lambda env: {lex(cmp_(env[atoms[0]], env[atoms[1]]), cmp_(env[atoms[2]], env[atoms[3]])) in '<='})
            else:
                a, b = read_coords(srv, acc, me, bx.f[0]), read_coords(srv, acc, me, bx.f[1])
                vv = [a[0], a[1], b[0], b[1], p[0], p[1]]
                t, e, cc, ok = side_spec(*vv)
                j.outcome(st, got, t, e, [z.k for z in vv], cc, ok)
            cur = nxt[1]
    ctx.absorb(me, good + j.good, where)
    ctx.sample(dict(function=where, outcomes=len(fin), proved=good + j.good, unrolled='two steps (each step is judged on its own, so this is inductive)'))
    if not fin:
        ctx.open(where + ': no outcome')


def position(srv, v):
    """the table position an Idx stands for"""
    u = pick(srv, lambda q, i: i['name'] == 'usize' and base(i) == 'Idx')
    if not u:
        raise Undecided('Idx::usize not found')
    c = Case(srv, u[0])
    cell = ('arg', 'idx')
    c.run.st.mem[cell] = v
    f = c.go([Ref(cell)])
    f = [x for x in f if isinstance(x[1], Lin)]
    if len(f) != 1:
        raise Undecided('Idx::usize')
    return f[0][1]


def mentions(srv, st, me, qs, child):
    """was the table read at the child's position?"""
    pos = position(srv, child)
    k = K('el', Sym(qs.ch[0][1], None), qs.ch[0][2] + pos)
    return k in st.var


def read_coords(srv, acc, me, v):
    r = []
    for w in 'xy':
        c = Case(srv, acc[w])
        cell = ('arg', 'coords')
        c.run.st.mem[cell] = v
        f = c.go([Ref(cell)])
        if len(f) != 1 or not isinstance(f[0][1], Sym):
            raise Undecided('accessor')
        r.append(f[0][1])
    return r


def check(ctx, srv):
    for f in (orders, side_test, reading, location):
        try:
            f(ctx, srv)
        except Undecided as e:
            ctx.open('%s: %s' % (f.__name__, e))
