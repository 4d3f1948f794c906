"""C06: one-step transition check of every container implementation from an arbitrary earlier content."""
from common import *

LISTS = dict(list_flat='flat', list_array='tri', list_tuple='tri', list_ref='opaque', list_ref_flat='flat', fans_vec='fan', fans_ref='opaque')


def check(ctx, srv):
    for m, kind in LISTS.items():
        for op in ('push', 'len', 'truncate', 'is_empty'):
            for extra in ((0, 1, 2) if kind == 'flat' else (0,)):
                one(ctx, srv, m, kind, op, extra)
    fan(ctx, srv)


def content(v):
    return v


def one(ctx, srv, m, kind, op, extra):
    run = Run(srv, 'harness::%s::%s' % (m, op))
    me, st = run.me, run.st
    me.handlers = [containers]
    l = run.arg(0, 'out')
    cell = l.cell
    ty = me.T(run.argty(0))['elem']
    while me.T(ty)['k'] == 'ref':
        inner = Ref(('inner', len(str(cell))))
        st.mem[cell] = inner
        cell = inner.cell
        ty = me.T(ty)['elem']
    mm = Lin.sym(K('in', 'triangles'))
    per = 3 if kind == 'flat' else 1
    total = mm.mul(per) + extra
    ety = me.T(ty)['args'][0] if me.T(ty)['k'] == 'adt' else None
    init = VecV(ty, [('s', K('in', 'init'), ZERO, total, ety)])
    st.mem[cell] = init
    n = Lin.sym(K('in', 'n'))
    args = [l]
    given = []
    for i in range(1, run.body['args']):
        if op == 'truncate':
            args.append(n)
        else:
            given.append(run.arg(i, 'v%d' % (i - 1)))
            args.append(given[-1])
    where = '%s::%s' % (m, op)
    res = []

    def final(st, v):
        got = me.read(st, cell, ())
        if op == 'push':
            exp = [('e', x) for x in given]
            if kind == 'tri' or (kind == 'opaque' and len(given) == 3):
                exp = [('e', Agg(None, 0, given))]
            exp = VecV(ty, init.ch + tuple(exp))
            res.append((st, seq(me, st, got, exp), 'adding to a container holding %r leaves %r, expected %r' % (init, got, exp)))
            return
        if op == 'truncate':
            for keep, cond in ((n, [('le', n - mm)]), (None, [('le', mm + 1 - n)])):
                s = st.copy()
                if not s.assume(cond):
                    continue
                exp = init if keep is None else VecV(ty, [('s', K('in', 'init'), ZERO, n.mul(per), ety)])
                if keep is None and extra:
                    continue
                res.append((s, seq(me, s, got, exp), 'truncating %r to %r leaves %r, expected %r' % (init, n, got, exp)))
            return
        r = seq(me, st, got, init)
        res.append((st, r, 'asking for %s changes the contents to %r' % (op, got)))
        if op == 'len':
            res.append((st, me.same(st, v, mm), 'the length of %r is reported as %r' % (init, v)))
        else:
            for b, cond in ((TRUE, [('le', mm)]), (FALSE, [('le', Lin(1) - mm)])):
                s = st.copy()
                if s.assume(cond):
                    res.append((s, me.same(s, v, b), 'a container of %s triangles or fans is reported %s' % (
                        'no' if b == TRUE else 'some', 'empty' if v == TRUE else 'not empty')))
    me.on_final = final
    try:
        run.start(args)
    except Undecided as e:
        me.undecided.append(str(e))
    settle(ctx, me, where, res)


def seq(me, st, got, exp):
    if not isinstance(got, VecV):
        return None
    return me.same_seq(st, got, exp)


def settle(ctx, me, where, res):
    good = 0
    for st, r, what in res:
        if r is True:
            good += 1
        elif r is False:
            i = me.functions and me.inst(sorted(me.functions)[-1])
            ctx.bad('%s' % where, '%s: %s' % (where, what), None, st.trace_list())
        else:
            ctx.open('%s: %s' % (where, what))
    ctx.absorb(me, good, where)
    if not res:
        ctx.open('%s: no normal return' % where)
    ctx.sample(dict(operation=where, checked=good, paths=me.paths))


def fan(ctx, srv):
    run = Run(srv, 'harness::fan_vec::new')
    me = run.me
    g = [run.arg(i, 'v%d' % i) for i in range(3)]
    res = []
    me.on_final = lambda st, v: res.append((st, seq(me, st, v, VecV(None, [('e', x) for x in g])), 'a new fan of %r holds %r' % (g, v)))
    run.start(g)
    settle(ctx, me, 'fan_vec::new', res)
    one(ctx, srv, 'fan_vec', 'fan', 'push', 0)
