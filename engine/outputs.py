"""C01-C05: the provided output formats, driven by an arbitrary sequence of builder steps (harness::drive)."""
from common import *

FORMATS = {
    'indexed_list': dict(kind='list', val='index', delim=False),
    'deindexed_list': dict(kind='list', val='vertex', delim=False),
    'indexed_fans': dict(kind='fans', val='index', delim=False),
    'deindexed_fans': dict(kind='fans', val='vertex', delim=False),
    'delimited_fans': dict(kind='flat', val='index', delim=True),
}


class Output(object):
    def __init__(self, srv, name, props, **kw):
        self.name = name
        self.f = FORMATS[name]
        self.props = props
        self.run = Run(srv, 'harness::' + name, **kw)
        self.me = self.run.me
        self.checked = {}

    def go(self):
        run, me, st = self.run, self.me, self.run.st
        p = run.arg(0, 'p')
        l = run.arg(1, 'out')
        lty = me.T(run.argty(1))['elem']
        self.cell = l.cell
        init = VecV(lty, [('s', K('in', 'init'), ZERO, Lin.sym(K('len', Sym(K('in', 'init'), None))), None)])
        self.init = init
        me.pinned_keys = {K('in', 'init')}
        st.mem[l.cell] = init
        self.p = p
        args = [p, l]
        if self.f['delim']:
            self.d = run.arg(2, 'delimiter')
            args.append(self.d)
        args.append(run.arg(len(args), 's'))
        st.ghost = dict(exp=init, cur=VecV(None), root=None, last=None, pend=(), phase=Lin(0))
        me.handlers = [containers, lookups, self.script]
        run.start(args)
        return me

    # the value stored for an index
    def value(self, st, i):
        if self.f['val'] == 'index':
            return i
        return ('lookup', i)

    def matches(self, st, got, idx):
        """is `got` what must be stored for index idx: True/False/None"""
        me = self.me
        if self.f['val'] == 'index':
            return me.same(st, got, idx)
        if isinstance(got, Sym) and KEYS[got.k][0] == 'deref':
            k = KEYS[KEYS[got.k][1].k]
            if k[0] == 'app' and k[1] == 'get_vertex':
                if me.same(st, k[2], self.p) is not True:
                    return False
                return me.same(st, k[3], idx)
        return False if not me.soft(got) else None

    def lookup(self, st, idx):
        """the abstract value of the vertex looked up for idx"""
        if self.f['val'] == 'index':
            return idx
        return Sym(K('deref', Sym(K('app', 'get_vertex', self.p, idx), None)), None)

    def script(self, me, st, fr, t, i, vi, args):
        if i['kind'] != 'unresolved' or trait_of(i, vi) != 'Script':
            return None
        n = i['name']
        g = st.ghost
        ty = me.place(st, fr, t[3])[2]
        if n == 'index':
            st.seq += 1
            return me.result(st, fr, t, me.mk(ty, fresh('i')))
        if n == 'next':
            return me.result(st, fr, t, me.mk(ty, fresh('step')))
        if n == 'fan':
            g['pend'] = tuple(deref(me, st, a) for a in args[1:4])
            st.note(('step', 'new fan' if g['phase'] == ONE else 'initialise'))
        elif n == 'extend':
            g['pend'] = (deref(me, st, args[1]),)
            st.note(('step', 'extend'))
        elif n == 'ok':
            self.commit(st, t[6])
        elif n == 'failed':
            self.failed(st, deref(me, st, args[1]), t[6])
            g['phase'] = Lin(2)
        elif n == 'built':
            self.built(st, args[1], t[6])
            g['phase'] = Lin(3)
        elif n == 'done':
            self.done(st, t[6])
        return unit_result(me, st, fr, t)

    def commit(self, st, span):
        me, g = self.me, st.ghost
        pend = g['pend']
        if self.f['delim']:
            for x in pend:
                b = self.clash(st, x)
                self.fact('C03', st, True if b is False else None if b is None and me.soft(x) else False,
                          'a step succeeded although an index given to it may equal the delimiter', span, kind='written')
        v = [self.lookup(st, x) for x in pend]
        kind = self.f['kind']
        exp = g['exp']
        if kind == 'list':
            if len(v) == 3:
                tri = v
                g['root'], g['last'] = v[0], v[2]
            else:
                tri = [g['root'], g['last'], v[0]]
                g['last'] = v[0]
            g['exp'] = me.vpush(exp, Agg(None, 0, tri))
        elif kind == 'fans':
            if len(v) == 3:
                if g['phase'] != ZERO:
                    g['exp'] = me.vpush(exp, g['cur'])
                g['cur'] = VecV(None, [('e', x) for x in v])
            else:
                g['cur'] = me.vpush(g['cur'], v[0])
        else:
            if len(v) == 3 and not st.le(exp.length()):
                exp = me.vpush(exp, self.d)
            for x in v:
                exp = me.vpush(exp, x)
            g['exp'] = exp
        g['phase'] = ONE
        g['pend'] = ()

    def clash(self, st, x):
        """does index x equal the delimiter on this path?"""
        if x == self.d:
            return True
        p, q = (x, self.d) if x.k <= self.d.k else (self.d, x)
        return st.bl.get(K('eq', p, q))

    def failed(self, st, e, span):
        g = st.ghost
        if not self.f['delim'] or not g['pend']:
            return
        r = [self.clash(st, x) for x in g['pend']]
        self.fact('C03', st, True in r, 'a step failed although no index given to it is known to equal the delimiter', span, kind='failed')
        g['pend'] = ()

    def built(self, st, o, span):
        me, g = self.me, st.ghost
        self.note_check(st)
        exp = g['exp']
        if self.f['kind'] == 'fans':
            exp = me.vpush(exp, g['cur'])
        out = o
        r = me.toref(o)
        if r is None or r.cell != self.cell or r.path:
            self.fact(self.main(), st, False, 'the output handed back is not the container that was given', span)
            return
        got = me.read(st, self.cell, ())
        res = me.same_seq(st, got, exp) if isinstance(got, VecV) else None
        self.fact(self.main(), st, res, 'after build the container holds %r, expected %r' % (got, exp), span, kind='built')
        # the earlier elements are still in front
        if st.known_eq(self.init.length(), ZERO):
            pre = True
        else:
            pre = me.same_seq(st, VecV(None, got.ch[:1], got.w), VecV(None, self.init.ch)) if isinstance(got, VecV) and not got.w else None
        self.fact('C05', st, pre, 'on success the earlier elements are not in front: %r' % (got,), span, kind='prefix')

    def done(self, st, span):
        me, g = self.me, st.ghost
        if g['phase'] != Lin(2):
            return
        got = me.read(st, self.cell, ())
        res = me.same_seq(st, got, self.init) if isinstance(got, VecV) else None
        self.fact('C05', st, res, 'after a failure the container holds %r instead of its initial contents' % (got,), span, kind='rollback')

    def main(self):
        if self.f['delim']:
            return 'C03'
        if self.f['kind'] == 'list':
            return 'C01'
        return 'C02'

    def note_check(self, st):
        pass

    def fact(self, prop, st, res, what, span, kind=''):
        me = self.me
        if prop in ('C01', 'C02') and self.f['val'] == 'vertex':
            prop = (prop, 'C04')
        else:
            prop = (prop,)
        if not any(p in self.props for p in prop):
            return
        c = self.checked.setdefault(kind or what, [0, 0, 0])
        if res is True:
            c[0] += 1
        elif res is False:
            c[1] += 1
            me.report(st, '%s: %s' % (self.name, what), span, prop=prop)
        else:
            c[2] += 1
            me.unproved(st, '%s: %s' % (self.name, what), span)
