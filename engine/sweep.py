"""C07, C08, C15, C18: the builder's lifecycle, the fate of errors and of open regions, over every path of the triangulation.

Coarse interpretation: coordinates, indices and tables are data whose contents are not tracked (any value is possible), so
every data-dependent branch is taken both ways; the control state (builder state, pending errors, open monotone pieces and
the stacks holding them) is tracked exactly, with joins to a fixpoint at the loops."""
from common import *
from core import newuid
import order
from order import pick, base

ERRS = ('triangulate::errors::InternalError', 'triangulate::errors::TriangulationError', 'triangulate::errors::TrapezoidationError')
MUTATORS = ('push', 'truncate', 'clear', 'insert', 'remove', 'swap', 'reverse', 'pop', 'extend_from_slice', 'sort', 'swap_remove', 'shuffle')


class CState(State):
    """equality of data integers forks two ways"""

    def eqint(self, a, b):
        d = a - b
        c = d.const()
        if c is not None:
            return c == 0
        if self.entails(d) and self.entails(-d):
            return True
        if self.entails(d + 1) or self.entails(Lin(1) - d):
            return False
        n = -d
        k = K('ieq', d if d.t <= n.t else n)
        v = self.bl.get(k)
        if v is not None:
            return v
        raise Split([('le', d), ('le', -d), ('bool', k, True)], [('bool', k, False)])


class Coarse(Interp):
    def __init__(self, srv, **kw):
        Interp.__init__(self, srv, **kw)
        self.tr = {}
        self.formats = set()
        self.handlers = [self.errors, self.helper, self.iters, self.data]
        self.modular = False
        self.uids = {}
        self.errs = []
        self.kp = {}
        self.seen = set()
        self.merged = 0

    # ------------------------------------------------------------ which types matter
    def tracked(self, ty, depth=0):
        """does a value of this type hold control state: the format or builder, errors, monotone pieces"""
        r = self.tr.get(ty)
        if r is not None:
            return r
        self.tr[ty] = False
        self.tr[ty] = r = self._tracked(ty, depth)
        return r

    def _tracked(self, ty, depth):
        t = self.T(ty)
        k = t['k']
        if k in ('param', 'alias', 'opaque', 'other'):
            return t['s'] in self.formats or 'FanFormat' in t['s'] or 'FanBuilder' in t['s']
        if k == 'adt':
            n = t['raw'].split('::')[-1]
            if t['raw'] in ERRS or n in ('MonotoneBuilder', 'Monotone', 'FanBuilderState'):
                return True
            if t['phantom']:
                return False
            if any(isinstance(a, int) and self.tracked(a, depth + 1) for a in t['args']):
                return True
            if depth > 12:
                return False
            return any(self.tracked(f[1], depth + 1) for v in t['variants'] for f in v['fields']) if t['krate'] in ('triangulate', 'harness', 'zot') else False
        if k in ('ref', 'ptr', 'slice', 'array'):
            return self.tracked(t['elem'], depth + 1)
        if k in ('tuple', 'closure'):
            return any(self.tracked(f, depth + 1) for f in t['fields'])
        return False

    def hasmut(self, ty, depth=0):
        t = self.T(ty)
        if t['k'] in ('ref', 'ptr'):
            return t['mut'] or self.hasmut(t['elem'], depth + 1)
        if t['k'] in ('tuple', 'closure'):
            return any(self.hasmut(f, depth + 1) for f in t['fields'])
        if t['k'] == 'fnptr':
            return False
        return False

    def hasref(self, ty, depth=0):
        t = self.T(ty)
        if t['k'] in ('ref', 'ptr'):
            return True
        if t['k'] == 'tuple':
            return any(self.hasref(f) for f in t['fields'])
        if t['k'] == 'adt' and depth < 4:
            return any(isinstance(a, int) and self.hasref(a, depth + 1) for a in t['args'])
        return False

    def errtype(self, ty):
        """Result<_, one of the crate's errors>?"""
        t = self.T(ty)
        if t['k'] == 'adt' and t['raw'] == 'core::result::Result':
            e = self.T(t['args'][1])
            if e['k'] == 'adt' and e['raw'] in ERRS:
                return True
            if e['k'] in ('param', 'alias') and 'FanBuilder' in e['s']:
                return True
        return False

    # ------------------------------------------------------------ errors
    def errors(self, me, st, fr, t, i, vi, args):
        """creating an error value: its identity is all that matters"""
        if i['krate'] == 'triangulate' and i['body']:
            ty = self.place(st, fr, t[3])[2]
            tt = self.T(ty)
            if tt['k'] == 'adt' and tt['raw'] == ERRS[0] and not any(self.tracked(self.opty(fr, o)) for o in t[2] if self.opty(fr, o) is not None):
                return self.result(st, fr, t, Sym(K('in', 'err@%s:%s' % tuple(t[6][:2]) if t[6] else 'err'), ty))
        return None

    def met(self, st, v, span):
        """an operation answered Err(v)"""
        g = st.ghost
        p = g.get('err')
        if p is None:
            return
        if not p:
            g['err'] = (v,)
            st.note(('error met', span))
        elif self.wraps(st, v, p[0]) is False:
            self.errs.append(('replaced', st, span))
            g['replaced'] = 1

    def wraps(self, st, e, p, depth=0):
        """is e the error p, possibly inside the enclosing error type"""
        if isinstance(e, Sym) and isinstance(p, Sym) and e.k == p.k:
            return True
        r = self.same(st, e, p) if getattr(e, 'ty', 0) == getattr(p, 'ty', 1) or e == p else False
        if r is True:
            return True
        if isinstance(e, Sym):
            x = self.expand(e, None, st)
            e = x if x is not None else e
        if isinstance(e, Agg) and e.f and depth < 4:
            rs = [self.wraps(st, x, p, depth + 1) for x in e.f if isinstance(x, (Sym, Agg))]
            if True in rs:
                return True
            if None in rs:
                return None
        return r

    # ------------------------------------------------------------ data helpers
    def helper(self, me, st, fr, t, i, vi, args):
        """functions of the crate that only compute with data: an unknown answer, or an unknown error"""
        if i['krate'] != 'triangulate' or i['kind'] in ('intrinsic', 'drop_glue', 'clone_shim') or i.get('ctor'):
            return None
        if t[4] is None:
            return None
        unres = i['kind'] in ('unresolved', 'virtual')
        if not unres and not i['body']:
            return None
        tys = [self.opty(fr, o) for o in t[2]]
        if any(x is None for x in tys):
            return None
        ty = self.place(st, fr, t[3])[2]
        err = self.errtype(ty)
        if unres and trait_of(i, vi) in ('FanFormat', 'FanBuilder'):
            return None
        if self.modular and err:
            pass
        elif any(self.tracked(x) and not self.regionref(x) for x in tys) or (not err and self.tracked(ty)):
            return None
        elif err and self.tracked(self.T(ty)['args'][0]):
            return None
        elif any(self.hasmut(x) and not self.regionref(x) for x in tys) and not (self.modular and unres):
            return None
        elif not err and self.hasref(ty):
            return None
        elif any(self.isfn(x) for x in tys):
            return None
        k = self.T(ty)['k']
        if k == 'tuple' and not self.T(ty)['fields'] and not any(self.hasmut(x) for x in tys):
            return self.result(st, fr, t, Agg(ty, 0, ()))
        if any(self.hasmut(x) for x in tys):
            # callee given mutable access: what it reaches is unknown afterwards
            r = Sym(K('call', fr.inst, fr.bb), ty) if err else self.mk(ty, self.name(st, fr, 'res'))
        else:
            r = self.mk(ty, K('app', i['full'], *[deref(self, st, a) for a in args]))
        var = self.variant(st, r) if err else None
        for n, (a, x) in enumerate(zip(args, tys)):
            tt = self.T(x)
            if tt['k'] == 'ref' and tt['mut'] and isinstance(a, Ref):
                self.write(st, a.cell, a.path, self.mk(tt['elem'], self.name(st, fr, 'arg%d' % n, (a.cell, a.path))))
        if err:
            r = self.fresh_result(st, fr, r, var)
            if var == 1:
                self.met(st, r.f[0], t[6])
            self.summarised[i['full']] = self.summarised.get(i['full'], 0) + 1
        return self.result(st, fr, t, r)

    def regionref(self, ty):
        t = self.T(ty)
        if t['k'] != 'ref':
            return False
        e = self.T(t['elem'])
        return e['k'] == 'adt' and e['krate'] == 'triangulate' and e['raw'].split('::')[-1] in ('MonotoneBuilder', 'Monotone')

    def fresh_result(self, st, fr, r, var):
        """the call site may be reached again: rename the outcome"""
        x = Agg(r.ty, var, [self.mk(f, self.name(st, fr, 'res%d' % n)) for n, f in enumerate(self.fields(r.ty, var))])
        st.var.pop(r.k, None)
        return x

    summarised = {}

    def isfn(self, ty):
        t = self.T(ty)
        if t['k'] in ('closure', 'fndef', 'fnptr'):
            return True
        return t['k'] in ('ref',) and self.isfn(t['elem'])

    # ------------------------------------------------------------ data sequences
    def dataseq(self, v):
        if not isinstance(v, VecV) or v.ty is None:
            return False
        t = self.T(v.ty)
        e = t.get('elem')
        if e is None and t['k'] == 'adt' and t['args']:
            e = t['args'][0]
            if isinstance(e, int) and self.T(e)['k'] == 'array':
                e = self.T(e)['elem']
        return isinstance(e, int) and not self.tracked(e)

    def unknown(self, v, length=None, key=None):
        e = None
        for c in v.ch:
            if c[0] == 's':
                e = c[4]
        if e is None:
            t = self.T(v.ty)
            e = t.get('elem')
            if e is None:
                e = t['args'][0]
                if self.T(e)['k'] == 'array':
                    e = self.T(e)['elem']
        k = key if key is not None else fresh('data')
        return VecV(v.ty, [('s', k, ZERO, length if length is not None else Lin.sym(K('len', Sym(k, v.ty))), e)])

    def vset(self, st, v, idx, val):
        if self.dataseq(v):
            return self.unknown(v, v.length())
        return Interp.vset(self, st, v, idx, val)

    def vget(self, st, v, idx):
        if self.dataseq(v) and len(v.ch) == 1 and v.ch[0][0] == 's':
            return self.elem(v.ch[0], v.ch[0][2] + idx)
        return Interp.vget(self, st, v, idx)

    def iters(self, me, st, fr, t, i, vi, args):
        """iterating over data: any item, any number of times"""
        if not self.modular or vi['trait'] is None or t[4] is None or i['krate'] not in ('core', 'alloc', 'std', 'smallvec', 'rand'):
            return None
        n = i['name']
        tr = trait_of(i, vi)
        ty = self.place(st, fr, t[3])[2]
        tys = [self.opty(fr, o) for o in t[2]]
        if not args or any(x is None or self.tracked(x) for x in tys) or self.tracked(ty):
            return None
        if tr == 'Iterator' and n == 'next' and isinstance(args[0], Ref):
            v = self.mk(ty, self.name(st, fr, 'item'))
            et = self.T(tys[0])['elem']
            self.write(st, args[0].cell, args[0].path, self.mk(et, self.name(st, fr, 'arg0', (args[0].cell, args[0].path))))
            return self.result(st, fr, t, v)
        if tr == 'Iterator' and n in ('collect', 'count', 'min', 'max', 'last', 'sum') or tr == 'FromIterator':
            return self.result(st, fr, t, self.mk(ty, self.name(st, fr, 'all')))
        if tr == 'SliceRandom' and n == 'shuffle' and isinstance(args[0], Ref):
            v = self.read(st, args[0].cell, args[0].path)
            if self.dataseq(v):
                self.write(st, args[0].cell, args[0].path, self.unknown(v, v.length(), self.name(st, fr, 'arg0', (args[0].cell, args[0].path))))
                return self.result(st, fr, t, Agg(ty, 0, ()))
        return None

    def data(self, me, st, fr, t, i, vi, args):
        n = i['name']
        if i['krate'] in ('alloc', 'core', 'smallvec', 'std') and args and isinstance(args[0], Ref):
            v = self.read(st, args[0].cell, args[0].path)
            if self.dataseq(v):
                if n in MUTATORS and (vi['trait'] is None):
                    ty = self.place(st, fr, t[3])[2]
                    self.write(st, args[0].cell, args[0].path, self.unknown(v, v.length() if n in ('swap', 'reverse', 'sort') else None, self.name(st, fr, 'arg0', (args[0].cell, args[0].path))))
                    return self.result(st, fr, t, self.mk(ty, self.name(st, fr, 'res')))
                if n in ('index', 'index_mut') and len(args) == 2 and isinstance(args[1], Lin):
                    return self.result(st, fr, t, Ref(args[0].cell, tuple(self.addp(args[0].path, ('i', args[1])))))
        return None

    # ------------------------------------------------------------ loop heads: data is forgotten
    def blur(self, st, aid):
        import join
        keep = set()
        mine = set()

        def top(name):
            k = K('top', aid, name)
            mine.add(k)
            return k

        def walk(v, ty, name, root):
            if v is UNDEF or v is None:
                return v
            if isinstance(v, (Agg, Sym, VecV)) and v.ty is not None:
                ty = v.ty
            if isinstance(v, Ref):
                p = []
                for n, e in enumerate(v.path):
                    if e[0] in ('i', 'sub'):
                        e = (e[0],) + tuple(Lin.sym(top((name, n, m))) if x.const() is None else x for m, x in enumerate(e[1:]))
                    p.append(e)
                return Ref(v.cell, tuple(p))
            if isinstance(v, FnV):
                return v
            if isinstance(v, VecV):
                if self.dataseq(v):
                    e = self.unknown(v).ch[0][4]
                    k = top(name)
                    return VecV(v.ty, [('s', k, ZERO, Lin.sym(K('len', Sym(k, v.ty))), e)])
                ch = []
                for n, c in enumerate(v.ch):
                    if c[0] == 'e':
                        ch.append(('e', walk(c[1], None, (name, n), False)))
                    else:
                        ch.append(c)
                        keep.update(c[3].syms())
                return VecV(v.ty, ch, v.w, v.tag)
            if ty is None:
                if isinstance(v, Lin) and v.const() is None:
                    return Lin.sym(top(name))
                if isinstance(v, Agg):
                    return Agg(v.ty, v.v, [walk(x, None, (name, n), False) for n, x in enumerate(v.f)])
                return v
            t = self.T(ty)
            if t['k'] == 'bool' and root:
                return v
            if self.tracked(ty) or t['k'] in ('closure', 'fndef', 'fnptr') or self.hasref(ty) or (isinstance(v, Agg) and not isinstance(v.v, int)):
                if isinstance(v, Agg):
                    try:
                        fs = self.fields(ty, v.v if isinstance(v.v, int) else 0)
                    except Undecided:
                        fs = []
                    if len(fs) != len(v.f) or not isinstance(v.v, int):
                        fs = [None] * len(v.f)
                    return Agg(v.ty, v.v, [walk(x, f, (name, n), False) for n, (x, f) in enumerate(zip(v.f, fs))])
                return v
            if t['k'] == 'tuple' and not t['fields'] or t['k'] == 'adt' and t['phantom']:
                return v
            return self.mk(ty, top(name))

        f = st.frames[-1]
        types = {(f.uid, n): ty for n, ty in enumerate(f.body['locals'])}
        todo = [c for c in types if c in st.mem]
        done = set()
        while todo:
            c = todo.pop()
            if c in done or c not in st.mem:
                continue
            done.add(c)
            join.cells_of(st.mem[c], todo)
        for c in done:
            st.mem[c] = walk(st.mem[c], types.get(c, self.celltype.get(c)), c, True)

        def clean(k):
            return not (BASE[k] & mine)
        st.cons = frozenset(l for l in st.cons if all(k in keep or clean(k) for k in l.syms()))
        st.var = {k: x for k, x in st.var.items() if clean(k)}
        st.bl = {k: x for k, x in st.bl.items() if clean(k)}
        st.od = {}

    # ------------------------------------------------------------ returning: equal states continue once
    def subkeys(self, v, out):
        if isinstance(v, Sym):
            self.keyparts(v.k, out)
        elif isinstance(v, Lin):
            for k, _ in v.t:
                self.keyparts(k, out)
        elif isinstance(v, Agg):
            for x in v.f:
                self.subkeys(x, out)
        elif isinstance(v, VecV):
            for c in v.ch:
                if c[0] == 'e':
                    self.subkeys(c[1], out)
                else:
                    self.keyparts(c[1], out)
                    self.subkeys(c[2], out)
                    self.subkeys(c[3], out)
            for i, x in v.w:
                self.subkeys(i, out)
                self.subkeys(x, out)
        elif isinstance(v, Ref):
            for e in v.path:
                self.subkeys(e, out)
            self.subkeys(v.cell, out)
        elif isinstance(v, tuple):
            for x in v:
                self.subkeys(x, out)

    def keyparts(self, k, out):
        r = self.kp.get(k)
        if r is None:
            o = {k}
            for x in KEYS[k]:
                self.subkeys(x, o)
            r = self.kp[k] = frozenset(o)
        out |= r

    def settle(self, st):
        """drop what is out of reach; False if an equal state has been here"""
        import join
        join.tidy(self, st)
        self.reach(st)
        key = (tuple((f.uid, f.bb, f.si) for f in st.frames), frozenset(st.mem.items()), frozenset(st.var.items()), frozenset(st.bl.items()), st.cons,
               frozenset(st.od.items()), tuple(sorted(st.ghost.items())), frozenset(st.act.items()))
        if key in self.seen:
            self.merged += 1
            return False
        self.seen.add(key)
        return True

    def reach(self, st):
        """forget facts about values nothing mentions"""
        out = set()
        for c, v in st.mem.items():
            self.subkeys(v, out)
            self.subkeys(c, out)
        self.subkeys(tuple(st.ghost.values()), out)
        st.var = {k: x for k, x in st.var.items() if k in out}
        st.bl = {k: x for k, x in st.bl.items() if k in out or self.within(k, out)}
        st.cons = frozenset(l for l in st.cons if all(k in out for k in l.syms()))
        st.od = {p: x for p, x in st.od.items() if p[0] in out and p[1] in out}

    def within(self, k, out):
        """a fact about values that are all still mentioned"""
        o = set()
        for x in KEYS[k]:
            if isinstance(x, Sym):
                o.add(x.k)
            else:
                self.subkeys(x, o)
        return bool(o) and o <= out

    def ret(self, st, fr):
        r = Interp.ret(self, st, fr)
        if r and st.frames and fr.cont is None and self.inst(fr.inst)['krate'] == 'triangulate':
            return self.settle(st)
        return r

    def goto(self, st, fr, tgt):
        r = Interp.goto(self, st, fr, tgt)
        if r and tgt not in fr.body['_heads'] and self.inst(fr.inst)['krate'] == 'triangulate':
            m = fr.body.get('_merge')
            if m is None:
                n = {}
                for x in fr.body['_succ']:
                    for y in set(x):
                        n[y] = n.get(y, 0) + 1
                m = fr.body['_merge'] = {y for y, c in n.items() if c > 1}
            if tgt in m:
                return self.settle(st)
        return r

    def name(self, st, fr, what, loc=None):
        """a symbol for the result of this call site that nothing in the state mentions yet"""
        out = set()
        for c, v in st.mem.items():
            self.subkeys(v, out)
            self.subkeys(c, out)
        self.subkeys(tuple(st.ghost.values()), out)
        for k in st.var:
            self.keyparts(k, out)
        for k in st.bl:
            self.keyparts(k, out)
        for l in st.cons:
            self.subkeys(l, out)
        n = 0
        while True:
            k = K('at', what, fr.inst, fr.bb, n) if loc is None else K('hv', loc, n)
            if k not in out:
                return k
            n += 1

    def opaque(self, st, fr, t, i, vi, args):
        nm = i['full']
        self.opaque_calls[nm] = self.opaque_calls.get(nm, 0) + 1
        for n, (a, o) in enumerate(zip(args, t[2])):
            ty = self.opty(fr, o)
            if ty is None:
                continue
            tt = self.T(ty)
            if tt['k'] == 'ref' and tt['mut'] and isinstance(a, Ref):
                self.write(st, a.cell, a.path, self.mk(tt['elem'], self.name(st, fr, 'arg%d' % n, (a.cell, a.path))))
        if t[4] is None:
            st.note(('panic', t[6]))
            raise PathEnd('panic')
        return self.result(st, fr, t, self.mk(self.place(st, fr, t[3])[2], self.name(st, fr, 'res')))

    # ------------------------------------------------------------ one activation per calling context
    def uid(self, *key):
        u = self.uids.get(key)
        if u is None:
            u = self.uids[key] = newuid()
        return u

    def push(self, st, n, args, dest, ret, cont=None):
        Interp.push(self, st, n, args, dest, ret, cont)
        f = st.frames[-1]
        if cont is not None or len(st.frames) > 1 and any(g.cont is not None for g in st.frames):
            return
        p = st.frames[-2] if len(st.frames) > 1 else None
        u = self.uid(p.uid if p else 0, p.bb if p else 0, n)
        old = f.uid
        for c in [c for c in st.mem if c[0] == u]:
            del st.mem[c]
        for i in range(len(args)):
            st.mem[(u, i + 1)] = st.mem.pop((old, i + 1))
        f.uid = u

    def head(self, st, fr, bb, back):
        import join
        key = (fr.uid, bb)
        if not back and not self.settle(st):
            return False
        for k in [q for q in st.act if q[0] == fr.uid and q[1] != bb and q[1] in fr.body['_inner'].get(bb, ())]:
            del st.act[k]
        aid = self.uid('head', fr.uid, bb)
        st.act[key] = (aid, 0)
        join.tidy(self, st)
        self.blur(st, aid)
        self.reach(st)
        if not self.settle(st):
            return False
        return join.at_head(self, st, aid)


class Life(object):
    """one abstract run with an arbitrary builder; props: which properties' findings are wanted"""

    def __init__(self, srv, root, label, **kw):
        self.label = label
        self.me = me = Coarse(srv, **kw)
        self.root = root
        me.env_inst = root['inst']
        self.body = me.body(root['inst'])
        self.st = CState()
        self.good = {}
        self.bad = {}
        self.empty = 0
        me.on_final = self.final
        me.on_return = self.returned
        me.on_drop = self.dropped
        me.handlers.insert(0, self.builder)
        self.st.ghost = dict(phase='none', err=(), tok=(), failed=(), out=(), lost=(), replaced=0, quiet=0)
        me.summarised = {}

    def go(self, args=None):
        me = self.me
        b = self.body
        a = []
        for n in range(b['args']):
            ty = b['locals'][n + 1]
            v = me.mk(ty, K('in', 'arg%d' % n))
            a.append(v)
            t = me.T(ty)
            if t['k'] in ('param',) and n == b['args'] - 1:
                self.fmt = v
                me.formats.add(t['s'])
        me.push(self.st, self.root['inst'], a, None, None)
        me.explore([self.st])
        return me

    def check(self, p, st, ok, what, span=None):
        if ok is True:
            self.good[p] = self.good.get(p, 0) + 1
        else:
            k = (p, what, tuple(span[:2]) if span else None)
            if k not in self.bad:
                self.bad[k] = (ok, span, st.trace_list()[-25:])

    def builder(self, me, st, fr, t, i, vi, args):
        if i['kind'] != 'unresolved' or trait_of(i, vi) not in ('FanFormat', 'FanBuilder'):
            return None
        n = i['name']
        g = st.ghost
        sp = t[6]
        if n not in ('initialize', 'new_fan', 'extend_fan', 'build', 'fail'):
            return None
        ty = me.place(st, fr, t[3])[2]
        var = None
        if n != 'fail':
            k = K('outcome', n, fr.uid, fr.bb)
            r = Sym(k, ty)
            var = me.variant(st, r)
            st.var.pop(k, None)
        self.check('C07', st, not g['err'] or n == 'fail', '%s is asked of the builder after an error' % n, sp)
        st.note(('builder', n, 'ok' if var == 0 else 'error' if var == 1 else '', sp[1] if sp else None))
        if n == 'initialize':
            self.check('C07', st, g['phase'] == 'none', 'the format is initialised again', sp)
            self.check('C07', st, me.same(st, args[0], self.fmt), 'another format is initialised', sp)
        else:
            self.check('C07', st, g['phase'] == 'live', '%s is asked of a builder that is not live (%s)' % (n, g['phase']), sp)
            tok = deref(me, st, args[0])
            self.check('C07', st, me.same(st, tok, g['tok'][0]) if g['tok'] else False, '%s is asked of another builder' % n, sp)
        if n == 'fail':
            self.check('C07', st, not g['failed'], 'fail is called twice', sp)
            g['failed'] = (deref(me, st, args[1]),)
            g['phase'] = 'failed'
            return unit_result(me, st, fr, t)
        res = Agg(ty, var, [me.mk(f, K('in', '%s %s@%s' % (n, 'error' if var else 'result', sp[1] if sp and n != 'initialize' else ''))) for f in me.fields(ty, var)])
        if var == 1:
            if n in ('initialize', 'build'):
                g['phase'] = 'dead'
            me.met(st, res.f[0], sp)
        elif n == 'initialize':
            g['phase'] = 'live'
            g['tok'] = (res.f[0],)
        elif n == 'build':
            g['phase'] = 'built'
            g['out'] = (res.f[0],)
        return me.result(st, fr, t, res)

    def returned(self, st, fr, v):
        me = self.me
        if me.inst(fr.inst)['krate'] not in ('triangulate',) or '__const' in st.ghost:
            return
        ty = fr.body['locals'][0]
        if me.errtype(ty):
            x = v
            if isinstance(x, Sym):
                x = me.expand(x, None, st)
            if any(self.steps_builder(fr.body['locals'][n + 1]) for n in range(fr.body['args'])):
                st.ghost['quiet'] = int(isinstance(x, Agg) and x.v == 0 and st.ghost['phase'] == 'none')
            if isinstance(x, Agg) and x.v == 1:
                sp = fr.body['blocks'][fr.bb]['t'][-1]
                me.met(st, x.f[0], sp if isinstance(sp, (list, tuple)) else None)

    def steps_builder(self, ty):
        t = self.me.T(ty)
        return t['k'] == 'ref' and t['mut'] and self.me.T(t['elem'])['k'] == 'adt' and self.me.T(t['elem'])['raw'].split('::')[-1] == 'FanBuilderState'

    # ------------------------------------------------------------ regions
    def live_region(self, st, v, depth=0):
        """the region a value holds: its type's name, or None"""
        me = self.me
        if depth > 8 or v is UNDEF or v is None:
            return None
        if isinstance(v, VecV):
            for c in v.ch:
                if c[0] == 'e':
                    r = self.live_region(st, c[1], depth + 1)
                    if r:
                        return r
                elif c[4] is not None and me.tracked(c[4]) and not st.entails(c[3]):
                    return self.region_type(c[4])
            return None
        if isinstance(v, (Agg, Sym)):
            if v.ty is None:
                return None
            t = me.T(v.ty)
            if t['k'] == 'adt':
                n = t['raw'].split('::')[-1]
                if n in ('MonotoneBuilder', 'Monotone') and t['krate'] == 'triangulate':
                    return n
            if isinstance(v, Sym):
                if not me.tracked(v.ty):
                    return None
                x = me.expand(v, None, st)
                if x is None:
                    return self.region_type(v.ty)
                v = x
            for x in v.f:
                r = self.live_region(st, x, depth + 1)
                if r:
                    return r
        return None

    def region_type(self, ty, depth=0):
        me = self.me
        t = me.T(ty)
        if t['k'] == 'adt':
            n = t['raw'].split('::')[-1]
            if n in ('MonotoneBuilder', 'Monotone') and t['krate'] == 'triangulate':
                return n
            for a in t['args']:
                if isinstance(a, int) and depth < 5:
                    r = self.region_type(a, depth + 1)
                    if r:
                        return r
            if depth < 5 and t['krate'] in ('triangulate', 'zot'):
                for v in t['variants']:
                    for f in v['fields']:
                        r = self.region_type(f[1], depth + 1)
                        if r:
                            return r
        elif t['k'] == 'tuple':
            for f in t['fields']:
                r = self.region_type(f, depth + 1)
                if r:
                    return r
        return None

    def dropped(self, me, st, v, ty, span):
        if '__const' in st.ghost or st.ghost.get('lost'):
            return
        if not me.tracked(ty):
            return
        r = self.live_region(st, v)
        if r is None:
            return
        # the piece's own methods consume it: handed over (C10), or found degenerate (checked separately)
        for f in st.frames:
            if base(me.inst(f.inst)) in ('MonotoneBuilder', 'Monotone'):
                return
        st.ghost['lost'] = ('%s at %s:%s' % (r, span[0], span[1]) if span else r,)

    # ------------------------------------------------------------ the end of the call
    def final(self, st, v):
        me, g = self.me, st.ghost
        if '__const' in g:
            return
        x = v
        if isinstance(x, Sym):
            x = me.expand(x, None, st)
        if not isinstance(x, Agg):
            self.check('C08', st, None, '%s: result not understood' % self.label)
            return
        sp = None
        self.check('C08', st, not g['replaced'], 'an error is replaced by another one', sp)
        if x.v == 0:
            self.check('C08', st, not g['err'], 'success is returned although an error was met', sp)
            if not g['err']:
                if g['phase'] == 'none':
                    self.check('C15', st, False, 'success is returned without any triangle', sp)
                else:
                    self.check('C07', st, g['phase'] == 'built', 'success is returned although the builder is %s' % g['phase'], sp)
                if g['phase'] == 'built':
                    self.check('C15', st, me.same(st, x.f[0], g['out'][0]), 'the output returned is not the builder\'s', sp)
            self.check('C18', st, not g['lost'], 'success is returned although an open region was discarded: %s' % (g['lost'][0] if g['lost'] else ''), sp)
            return
        e = x.f[0]
        nov = self.variant_name(st, e) == 'NoVertices'
        if g['err']:
            self.check('C08', st, me.wraps(st, e, g['err'][0]), 'the error returned is not the one that was met', sp)
        if g['phase'] == 'none':
            if nov:
                self.empty += 1
            if not g['err'] or g['quiet']:
                self.check('C15', st, nov, 'no triangle and no error, but the answer is not the no-vertices error', sp)
        else:
            self.check('C15', st, not nov, 'the no-vertices error is returned although there were triangles', sp)
        if g['phase'] == 'live':
            self.check('C07', st, False, 'an error is returned but the builder is told neither to build nor to fail', sp)
        elif g['phase'] == 'failed':
            self.check('C07', st, me.wraps(st, e, g['failed'][0]), 'fail was given another error than the one returned', sp)
        elif g['phase'] == 'built':
            self.check('C07', st, False, 'an error is returned after the builder succeeded', sp)
        else:
            self.check('C07', st, True, '')

    def variant_name(self, st, e):
        me = self.me
        v = e.v if isinstance(e, Agg) else st.var.get(e.k) if isinstance(e, Sym) else None
        if isinstance(v, int) and e.ty is not None and me.T(e.ty)['k'] == 'adt':
            vs = me.T(e.ty)['variants']
            return vs[v]['name'] if v < len(vs) else None
        return None


def triangulation(srv, **kw):
    rs = pick(srv, lambda r, i: i['name'] == 'triangulate' and base(i) == 'Trapezoidation' and not i['trait'])
    if len(rs) != 1:
        raise Undecided('Trapezoidation::triangulate not found')
    return Life(srv, rs[0], 'Trapezoidation::triangulate', **kw)


class Part(Life):
    """one function on its own: the error of a callee it calls is the error it answers"""

    def __init__(self, srv, root, label, **kw):
        Life.__init__(self, srv, root, label, **kw)
        self.me.modular = True
        self.me.on_drop = None
        self.fmt = None

    def check(self, p, st, ok, what, span=None):
        if p == 'C08':
            Life.check(self, p, st, ok, '%s: %s' % (self.label, what), span)

    def builder(self, me, st, fr, t, i, vi, args):
        return None

    def final(self, st, v):
        me, g = self.me, st.ghost
        if '__const' in g:
            return
        x = v
        if isinstance(x, Sym):
            x = me.expand(x, None, st)
        if not isinstance(x, Agg):
            # handed on from the only callee: forked there
            self.check('C08', st, None, 'result not understood')
            return
        self.check('C08', st, not g['replaced'], 'an error is replaced by another one')
        if x.v == 0:
            self.check('C08', st, not g['err'], 'success is returned although an error was met')
        elif g['err']:
            self.check('C08', st, me.wraps(st, x.f[0], g['err'][0]), 'the error returned is not the one that was met')
        else:
            self.check('C08', st, True, '')


def parts(srv, skip, **kw):
    me = Coarse(srv)

    def want(r, i):
        if i['krate'] != 'triangulate' or not i['body'] or r['inst'] in skip:
            return False
        if '::tests::' in i['full'] or i['full'].startswith('tests::'):
            return False
        b = srv.body(r['inst'])
        if b is None:
            return False
        me.env_inst = r['inst']
        if (i['trait'] or '').split('::')[-1].split('<')[0] in ('FanFormat', 'FanBuilder', 'ListFormat', 'ListBuilder'):
            return False
        return me.errtype(b['locals'][0])
    for r in pick(srv, want):
        yield Part(srv, r, srv.inst(r['inst'])['full'], **kw)


def check(ctx, srv, prop):
    l = triangulation(srv, deadline=time.time() + ctx.left() - 60, limit=10000000)
    try:
        me = l.go()
    except Undecided as e:
        me = l.me
        ctx.open('Trapezoidation::triangulate: %s' % e)
    report(ctx, l, prop)
    if prop == 'C15' and not l.empty and not l.me.undecided and not me.cut:
        ctx.bad('triangulate/never', 'no path of Trapezoidation::triangulate answers the no-vertices error', None)
    if prop == 'C08':
        for p in parts(srv, set(l.me.functions), deadline=time.time() + ctx.left() - 30, limit=2000000):
            try:
                p.go()
            except Undecided as e:
                ctx.open('%s: %s' % (p.label, e))
            report(ctx, p, prop)


def report(ctx, l, prop):
    ctx.absorb(l.me, l.good.get(prop, 0), l.label)
    for (p, what, sp), (ok, span, trace) in l.bad.items():
        if p != prop:
            continue
        if ok is False:
            ctx.bad('%s/%s' % (l.label, what), what, span, trace)
        else:
            ctx.open('%s: %s' % (l.label, what))
    ctx.sample(dict(root=l.label, checks=l.good.get(prop, 0), paths=l.me.paths, fixpoint_joins=l.me.joins, equal_states_merged=l.me.merged,
                    summarised_calls=dict(list(l.me.summarised.items())[:12])))
