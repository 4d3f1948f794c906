"""Shared pieces of the property specifications: running a root function abstractly, contracts of opaque traits."""
import time
from values import *
from core import *
from build import Server


class Run(object):
    """one abstract run of a root function"""

    def __init__(self, srv, root, **kw):
        self.srv = srv
        rs = [r for r in srv.roots() if r['kind'] == 'fn' and r['raw'] == root] or [r for r in srv.roots() if r['raw'] == root]
        if not rs:
            raise Undecided('root %s not found' % root)
        self.root = rs[0]
        self.me = Interp(srv, **kw)
        self.me.env_inst = self.root['inst']
        self.body = self.me.body(self.root['inst'])
        self.st = State()
        self.args = []

    def arg(self, n, name):
        ty = self.body['locals'][n + 1]
        return self.me.mk(ty, K('in', name))

    def start(self, args):
        self.me.push(self.st, self.root['inst'], args, None, None)
        self.me.explore([self.st])
        return self.me

    def argty(self, n):
        return self.body['locals'][n + 1]


def deref(me, st, v):
    while isinstance(v, Ref):
        v = me.read(st, v.cell, v.path)
    return v


def unit_result(me, st, fr, t):
    return me.result(st, fr, t, Agg(me.place(st, fr, t[3])[2], 0, ()))


def trait_of(i, vi):
    tr = vi['trait'] or i['trait'] or ''
    return tr.split('::')[-1]


def containers(me, st, fr, t, i, vi, args):
    """contracts of the output containers when they are opaque types: List (of triangles), Fans (of fans), Fan (of vertices)"""
    if i['kind'] != 'unresolved':
        return None
    tr = trait_of(i, vi)
    n = i['name']
    if tr not in ('List', 'Fans', 'Fan'):
        return None
    if tr == 'Fan' and n == 'new':
        return me.result(st, fr, t, VecV(me.place(st, fr, t[3])[2], [('e', a) for a in args]))
    r = me.toref(args[0])
    v = me.read(st, r.cell, r.path)
    if not isinstance(v, VecV):
        if isinstance(v, Sym):
            ety = None
            v = VecV(v.ty, [('s', v.k, ZERO, Lin.sym(K('len', Sym(v.k, None))), ety)])
        else:
            raise Undecided('container %r' % (v,))
    if n == 'push':
        x = args[1] if len(args) == 2 else Agg(None, 0, args[1:])
        me.write(st, r.cell, r.path, me.vpush(v, x))
        return unit_result(me, st, fr, t)
    if n == 'len':
        return me.result(st, fr, t, v.length())
    if n == 'is_empty':
        return me.result(st, fr, t, B(st.le(v.length())))
    if n == 'truncate':
        m = me.int(args[1])
        if st.le(m - v.length()):
            me.write(st, r.cell, r.path, me.vtrunc(st, v, m))
        return unit_result(me, st, fr, t)
    return None


def lookups(me, st, fr, t, i, vi, args):
    """PolygonList::get_vertex and the like on an opaque polygon list: a function of the list and the index"""
    if i['kind'] != 'unresolved':
        return None
    tr = trait_of(i, vi)
    if tr in ('PolygonList', 'Polygon') and i['name'] in ('get_vertex', 'vertex_count', 'iter_polygons', 'iter_indices'):
        ty = me.place(st, fr, t[3])[2]
        key = [x if isinstance(x, (Lin, Sym, Agg)) else x for x in args]
        return me.result(st, fr, t, me.mk(ty, K('app', i['name'], *key)))
    return None
