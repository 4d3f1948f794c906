"""C11: format adapters around an arbitrary inner format (reverse_winding, into_fan_format) and declared windings."""
from common import *

STEPS = ('initialize', 'new_fan', 'extend_fan', 'build', 'fail')


class Adapter(object):
    """drive the adapter with arbitrary steps; the wrapped format is opaque and its calls are recorded"""

    def __init__(self, srv, root, **kw):
        self.run = Run(srv, 'harness::' + root, **kw)
        self.name = root
        self.me = self.run.me
        self.good = 0

    def go(self):
        run, me, st = self.run, self.me, self.run.st
        self.f, self.p, s = run.arg(0, 'format'), run.arg(1, 'p'), run.arg(2, 's')
        st.ghost = dict(pend=(), calls=(), res=None, tok=None, fail=None)
        me.handlers = [self.inner, self.script]
        run.start([self.f, self.p, s])
        return me

    def check(self, st, ok, what, span):
        if ok is True:
            self.good += 1
        elif ok is False:
            self.me.report(st, '%s: %s' % (self.name, what), span)
        else:
            self.me.unproved(st, '%s: %s' % (self.name, what), span)

    def inner(self, me, st, fr, t, i, vi, args):
        if i['kind'] != 'unresolved' or trait_of(i, vi) not in ('FanFormat', 'FanBuilder'):
            return None
        n = i['name']
        if n not in STEPS:
            return None
        g = st.ghost
        ty = me.place(st, fr, t[3])[2]
        a = [deref(me, st, x) for x in args]
        r = me.mk(ty, K('in', 'initialised') if n == 'initialize' else fresh('r'))
        if n == 'initialize':
            me.variant(st, r)  # forks before anything is recorded
            self.check(st, me.same(st, a[0], self.f), 'the wrapped format is not the one initialised: %r %r' % (a[0], self.f), t[6])
            self.check(st, me.same(st, args[1], self.p), 'the wrapped format is initialised with another polygon list', t[6])
            call = ('initialize',) + tuple(a[2:])
        else:
            self.check(st, a[0] == g['tok'], '%s is called on another builder' % n, t[6])
            call = (n,) + tuple(a[1:])
        g['calls'] = g['calls'] + (call,)
        if len(g['calls']) > 3:
            self.check(st, False, 'more than one step is forwarded', t[6])
            raise PathEnd('done')
        if n == 'fail':
            return unit_result(me, st, fr, t)
        if n == 'initialize':
            g['res'] = me.expand(r, None, st)
            if g['res'].v == 0:
                g['tok'] = g['res'].f[0]
            return me.result(st, fr, t, g['res'])
        g['res'] = r
        return me.result(st, fr, t, r)

    def expect(self, st, span, *calls):
        me, g = self.me, st.ghost
        got = g['calls']
        ok = len(got) == len(calls)
        if ok:
            for x, y in zip(got, calls):
                if x[0] != y[0] or len(x) != len(y):
                    ok = False
                    break
                for u, v in zip(x[1:], y[1:]):
                    s = me.same(st, u, v)
                    if s is not True:
                        ok = s if ok is True else ok
        self.check(st, ok, 'asked for %r, but the wrapped format was asked for %r' % (list(calls), list(got)), span)
        g['calls'] = ()

    def result_is(self, st, variant, payload, span):
        me, g = self.me, st.ghost
        r = g['res']
        if r is None:
            return
        if isinstance(r, Sym):
            v = st.var.get(r.k)
            if not isinstance(v, int):
                return self.check(st, False if not me.soft(r) else None, 'the result of the wrapped format is not looked at', span)
            r = me.expand(r, None, st)
        if r.v != variant:
            return self.check(st, False, 'the wrapped format %s, but the adapter reports %s' % (
                ('succeeded', 'failure') if variant else ('failed', 'success')), span)
        if payload is not None:
            self.check(st, me.same(st, r.f[0], payload), 'the %s of the wrapped format is replaced' % ('error' if variant else 'output'), span)

    def script(self, me, st, fr, t, i, vi, args):
        if i['kind'] != 'unresolved' or trait_of(i, vi) != 'Script':
            return None
        n = i['name']
        g = st.ghost
        ty = me.place(st, fr, t[3])[2]
        if n == 'index':
            return me.result(st, fr, t, me.mk(ty, fresh('i')))
        if n == 'next':
            g['res'] = None
            return me.result(st, fr, t, me.mk(ty, fresh('step')))
        sp = t[6]
        if n == 'fan':
            st.note(('step', 'start a fan'))
            g['pend'] = (('initialize' if g['tok'] is None else 'new_fan',) + tuple(deref(me, st, a) for a in args[1:4]),)
        elif n == 'extend':
            st.note(('step', 'extend'))
            g['pend'] = (('extend_fan', deref(me, st, args[1])),)
        elif n == 'ok':
            self.expect(st, sp, *g['pend'])
            self.result_is(st, 0, None, sp)
            g['pend'] = ()
        elif n == 'failed':
            e = deref(me, st, args[1])
            if g['pend']:
                self.expect(st, sp, *g['pend'])
                self.result_is(st, 1, e, sp)
                g['fail'] = ('step', e) if g['tok'] is not None else None
            elif g['res'] is not None:
                self.expect(st, sp, ('build',))
                self.result_is(st, 1, e, sp)
                g['fail'] = None
            else:
                self.expect(st, sp)
                g['fail'] = ('abort', e)
            g['pend'] = ()
        elif n == 'built':
            self.expect(st, sp, ('build',))
            self.result_is(st, 0, args[1], sp)
        elif n == 'done':
            f = g['fail']
            if f is None:
                self.expect(st, sp)
            else:
                got = g['calls']
                ok = len(got) == 1 and got[0][0] == 'fail'
                if ok:
                    x = got[0][1]
                    if f[0] == 'step':
                        if isinstance(x, Agg):
                            ok = me.same(st, x.f[0], f[1]) if x.f else False
                        else:
                            ok = None
                    else:
                        ok = me.same(st, x, f[1])
                self.check(st, ok, 'after %s the wrapped builder was asked for %r' % (f, got), sp)
            g['calls'] = ()
        return unit_result(me, st, fr, t)


def windings(ctx, srv):
    """(root, relation between the two constants)"""
    def run(root, f):
        r = Run(srv, 'harness::' + root)
        me = r.me
        res = []
        me.on_final = lambda st, v: res.append((st, v))
        r.start([])
        good = 0
        for st, v in res:
            vs = []
            for x in v.f:
                if isinstance(x, Sym):
                    k = st.var.get(x.k)
                    vs.append(x.k if not isinstance(k, int) else name(me, x.ty, k))
                else:
                    vs.append(name(me, x.ty, x.v))
            ok = f(vs)
            if ok:
                good += 1
            else:
                ctx.bad('winding/' + root, '%s: declared windings are %r' % (root, [x if isinstance(x, str) else kstr(x) for x in vs]), None, st.trace_list())
        ctx.absorb(me, good, root)
        ctx.sample(dict(constants=root, cases=len(res)))
        if not res:
            ctx.open(root + ': constants not evaluated')

    def name(me, ty, k):
        return me.T(ty)['variants'][k]['name']
    opp = {'Clockwise': 'Counterclockwise', 'Counterclockwise': 'Clockwise'}
    run('winding_reversed', lambda v: opp.get(v[1]) == v[0])
    run('winding_twice', lambda v: v[0] == v[1])
    run('winding_listed', lambda v: v[0] == v[1])
    run('winding_default', lambda v: v == ['Counterclockwise'] * 2)
    run('winding_provided', lambda v: v == ['Counterclockwise'] * 5)


def check(ctx, srv):
    windings(ctx, srv)
    for root in ('reversed', 'reversed_twice'):
        for kw in ({}, dict(delay=3)):
            a = Adapter(srv, root, deadline=time.time() + ctx.left() / 3, **kw)
            me = a.go()
            clean = not me.violations and not me.proof_failed and not me.undecided and a.good
            if clean or kw:
                ctx.absorb(me, a.good, root)
                for v in me.violations:
                    ctx.bad(root + '/' + v['what'][:60], v['what'], v['span'], v['trace'])
                for v in me.proof_failed:
                    ctx.open(v['what'])
                break
