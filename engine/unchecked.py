"""C19: every unsafe operation of the crate.

(A) All unsafe operations are enumerated from the type-checked bodies (calls of unsafe functions, pointer casts, dereferences of raw
pointers, unions, statics, unsafe impls); each needs a rule. Pointer casts: the pointees have the same layout by construction
(identical, or one the transparent wrapper of the other).
(B) Unchecked positions: the tables (vectors of T for which Idx<T> exists) are followed by their lengths through every path of
trapezoidize. Data is any value, except that an Idx<T> read from memory refers to an entry of its table; this is the invariant, and
what maintains it is checked: an Idx made from a number is either below the length, or nobody may rely on it before the entry is
there, and it must be there when the loop goes round or the call succeeds."""
from common import *
from sweep import Coarse, CState
import order

SHRINK = ('pop', 'truncate', 'clear', 'remove', 'swap_remove', 'drain', 'split_off', 'set_len', 'dedup', 'dedup_by_key', 'dedup_by', 'retain', 'retain_mut', 'resize', 'resize_with',
          'pop_if', 'extract_if', 'splice')
GROW = ('push', 'insert')
UNCHECKED = ('get_unchecked', 'get_unchecked_mut')
CASTS = ('PtrToPtr', 'Transmute', 'PointerExposeProvenance', 'PointerWithExposedProvenance', 'FnPtrToPtr')
SAME = ('reserve', 'reserve_exact', 'shrink_to_fit', 'shrink_to', 'as_slice', 'as_mut_slice', 'deref', 'deref_mut', 'as_ptr', 'capacity', 'iter', 'iter_mut', 'get', 'get_mut', 'first', 'last',
        'first_mut', 'last_mut', 'contains', 'swap', 'reverse', 'is_empty', 'len', 'index', 'index_mut', 'get_unchecked', 'get_unchecked_mut', 'into_boxed_slice', 'as_ref', 'borrow', 'fmt', 'into_iter',
        'eq', 'ne', 'split_at_mut', 'split_at', 'clone', 'with_capacity', 'new', 'default', 'as_mut', 'borrow_mut', 'drop')


def short(t):
    return t['raw'].split('::')[-1] if t['k'] == 'adt' else None


def where(sp):
    return tuple(sp[:2]) if sp else None


class Tables(Coarse):
    def __init__(self, srv, root, ctx, **kw):
        Coarse.__init__(self, srv, **kw)
        self.modular = True
        self.summarised = {}
        self.rc = {}
        self.extra = []
        self.copies = 0
        self.ch = {}
        self.tabs = {}
        self.sites = {}
        self.root = root
        self.ctx = ctx
        self.env_inst = root['inst']
        self.handlers = [self.tables, self.again] + self.handlers
        self.good = 0
        self.oks = 0
        self.made = 0
        self.bad = {}
        self.openq = {}
        self.on_final = self.final
        self.least = {}
        self.names = set()
        self.only = None
        self.given = False

    # ------------------------------------------------------------ types
    def idxof(self, ty):
        """T if the type is Idx<T>"""
        t = self.T(ty)
        if t['k'] == 'adt' and t['krate'] == 'triangulate' and short(t) == 'Idx' and len(t['args']) == 1:
            return self.label(t['args'][0])
        return None

    def label(self, ty):
        t = self.T(ty)
        return short(t) if t['k'] == 'adt' else t['s']

    def elemof(self, ty):
        """T if the type is a (reference to a) vector or slice of T"""
        t = self.T(ty)
        while t['k'] in ('ref', 'ptr'):
            t = self.T(t['elem'])
        if t['k'] == 'slice':
            return self.label(t['elem'])
        if t['k'] == 'adt' and t['raw'] == 'alloc::vec::Vec':
            return self.label(t['args'][0])
        if t['k'] == 'adt' and t['box'] and self.T(t['args'][0])['k'] == 'slice':
            return self.label(self.T(t['args'][0])['elem'])
        return None

    def istable(self, name):
        return name is not None and name in self.names

    # ------------------------------------------------------------ which functions must be followed
    def reaches(self, n):
        """can the function reach an unchecked operation or change a table"""
        r = self.rc.get(n)
        if r is not None:
            return r
        seen, todo, hit = {n}, [n], False
        while todo and not hit:
            m = todo.pop()
            if self.rc.get(m):
                hit = True
                break
            i = self.inst(m)
            b = self.body(m) if i['body'] else None
            if b is None:
                continue
            nxt = []
            for bl in b['blocks']:
                t = bl['t']
                if t and t[0] == 'call' and t[1][0] != 'op':
                    x = self.inst(t[1][1])
                    if x['krate'] in ('core', 'alloc', 'std'):
                        if x['name'] in UNCHECKED or x['name'] == 'new_unchecked':
                            hit = True
                        if x['krate'] == 'alloc' and x['name'] in GROW + SHRINK + ('append', 'extend', 'extend_from_slice'):
                            hit = True
                        if x['krate'] == 'core' and x['raw'].split('::')[-2:-1] == ['mem'] and x['name'] in ('take', 'swap', 'replace'):
                            hit = True
                    nxt.append(t[1][1])
                for s in bl['s']:
                    if s[0] == '=' and s[2][0] == 'agg' and s[2][1][0] == 'adt' and self.idxof(s[2][1][1]) is not None:
                        hit = True
            for ty in b['locals']:
                t = self.T(ty)
                if t['k'] in ('closure', 'fndef'):
                    nxt.append(t['inst'])
            for c in nxt:
                if c not in seen and self.inst(c)['krate'] in ('triangulate', 'harness'):
                    seen.add(c)
                    todo.append(c)
        self.rc[n] = hit
        return hit

    def changes(self, n):
        """the tables the function may change, directly or below it"""
        r = self.ch.get(n)
        if r is not None:
            return r
        seen, todo, out = {n}, [n], set()
        while todo:
            m = todo.pop()
            i = self.inst(m)
            b = self.body(m) if i['body'] else None
            if b is None:
                continue
            nxt = []
            for bl in b['blocks']:
                t = bl['t']
                if t and t[0] == 'call' and t[1][0] != 'op':
                    nxt.append(t[1][1])
                    x = self.inst(t[1][1])
                    if x['krate'] in ('alloc', 'core', 'std', 'rand', 'smallvec'):
                        for o in t[2] + [['c', t[3]]]:
                            if o[0] in ('c', 'm') and not o[1][1]:
                                ty = b['locals'][o[1][0]]
                                q = self.T(ty)
                                if q['k'] == 'ref' and not q['mut']:
                                    continue
                                e = self.elemof(ty)
                                if e is not None and x['name'] not in SAME[:-8] + ('index', 'index_mut'):
                                    out.add(e)
            for ty in b['locals']:
                t = self.T(ty)
                if t['k'] in ('closure', 'fndef'):
                    nxt.append(t['inst'])
            for c in nxt:
                if c not in seen and self.inst(c)['krate'] in ('triangulate', 'harness'):
                    seen.add(c)
                    todo.append(c)
        self.ch[n] = out
        return out

    def helper(self, me, st, fr, t, i, vi, args):
        if i['body'] and i['krate'] == 'triangulate' and (self.reaches(i['n']) or order.base(i) == 'Idx'):
            if i['n'] not in [f.inst for f in st.frames]:
                return None
            ty = self.place(st, fr, t[3])[2]
            if any(self.hasmut(self.opty(fr, o)) for o in t[2]):
                raise Undecided('recursion with mutable access: %s' % i['full'])
            # the recursive call is covered by the analysis of the outer one: its arguments are any arguments
            return self.result(st, fr, t, self.mk(ty, self.name(st, fr, 'rec')))
        return Coarse.helper(self, me, st, fr, t, i, vi, args)

    # ------------------------------------------------------------ the tables
    def length(self, st, n):
        v = st.ghost.get('len:' + n)
        if v is None:
            v = st.ghost['len:' + n] = Lin.sym(K('tlen', n, 'start')) if self.given else ZERO
        return v

    def dirty(self, st, n, why):
        if n not in dict(st.ghost['dirty']):
            st.ghost['dirty'] = tuple(sorted(st.ghost['dirty'] + ((n, why),)))

    def good_record(self, st, r):
        return st.entails(r[1] - self.length(st, r[0]) + 1)

    def plain(self, a):
        """does the reference speak of the whole table"""
        return isinstance(a, Ref) and not any(p[0] == 'sub' for p in a.path)

    def tables(self, me, st, fr, t, i, vi, args):
        if i['krate'] not in ('alloc', 'core', 'std'):
            return None
        n = i['name']
        if n == 'new_unchecked' and len(args) == 1 and isinstance(args[0], Lin):
            self.judge(st, fr, t, 'nonzero', args[0])
            return None
        if n in UNCHECKED and len(args) == 2:
            return self.access(st, fr, t, args)
        if n in ('take', 'replace', 'swap') and args and i['krate'] == 'core':
            for o in t[2]:
                ty = self.opty(fr, o)
                e = self.elemof(ty) if ty is not None and self.T(ty)['k'] == 'ref' and self.T(self.T(ty)['elem'])['k'] == 'adt' else None
                if self.istable(e):
                    self.dirty(st, e, '%s on the table of %s' % (n, e))
            return None
        if not args:
            ty = self.place(st, fr, t[3])[2]
            e = self.elemof(ty) if self.T(ty)['k'] == 'adt' else None
            if self.istable(e) and n in ('new', 'default'):
                return self.create(st, fr, t, ty, e)
            return None
        ty = self.opty(fr, t[2][0])
        if n == 'with_capacity' and i['krate'] == 'alloc':
            ty = self.place(st, fr, t[3])[2]
            e = self.elemof(ty) if self.T(ty)['k'] == 'adt' else None
            if self.istable(e):
                return self.create(st, fr, t, ty, e)
            return None
        if ty is None:
            return None
        e = self.elemof(ty)
        if not self.istable(e) or self.T(ty)['k'] != 'ref':
            if self.istable(e) and n in ('into_iter', 'drain'):
                self.dirty(st, e, '%s on the table of %s' % (n, e))
            return None
        L = self.length(st, e)
        isvec = self.T(self.T(ty)['elem'])['k'] == 'adt'
        if n == 'len' and vi['trait'] is None and self.plain(args[0]):
            return self.result(st, fr, t, L)
        if n == 'is_empty' and vi['trait'] is None and self.plain(args[0]):
            return self.result(st, fr, t, B(st.le(L)))
        if not self.T(ty)['mut'] or not isvec:
            return None
        rt = self.place(st, fr, t[3])[2]
        if n == 'push' and isinstance(args[0], Ref):
            self.escape(st, args[1])
            v = self.asvec(self.read(st, args[0].cell, args[0].path))
            self.write(st, args[0].cell, args[0].path, self.unknown(v, None, self.name(st, fr, 'arg0', (args[0].cell, args[0].path))))
            st.ghost['len:' + e] = L + 1
            st.note(('entry added to the table of %s' % e, where(t[6])))
            self.settle_records(st)
            return self.result(st, fr, t, Agg(rt, 0, ()))
        if n in SAME:
            return None
        if n in ('insert', 'extend', 'extend_from_slice', 'append', 'extend_one'):
            m = self.added(st, fr, t, n, args)
            for x in args[1:]:
                self.escape(st, x)
            if m is None:
                self.dirty(st, e, '%s on the table of %s' % (n, e))
                st.ghost['len:' + e] = N = Lin.sym(self.name(st, fr, 'tlen'))
                st.assume([('le', L - N)])
            else:
                st.ghost['len:' + e] = L + m
            st.note(('entries added to the table of %s' % e, where(t[6])))
            self.settle_records(st)
            v = self.asvec(self.read(st, args[0].cell, args[0].path))
            self.write(st, args[0].cell, args[0].path, self.unknown(v, None, self.name(st, fr, 'arg0', (args[0].cell, args[0].path))))
            return self.result(st, fr, t, Agg(rt, 0, ()))
        known = None
        if n == 'pop':
            known = L - 1 if st.entails(Lin(1) - L) else None
        elif n == 'clear':
            known = ZERO
        elif n == 'truncate' and len(args) == 2 and isinstance(args[1], Lin):
            known = args[1] if st.le(args[1] - L) else L
        if known is not None:
            st.ghost['len:' + e] = known
            st.note(('entries removed from the table of %s' % e, where(t[6])))
            st.ghost['budget'] = 6
        self.dirty(st, e, '%s on the table of %s' % (n, e))
        v = self.asvec(self.read(st, args[0].cell, args[0].path))
        self.write(st, args[0].cell, args[0].path, self.unknown(v, None, self.name(st, fr, 'arg0', (args[0].cell, args[0].path))))
        return self.result(st, fr, t, self.mk(rt, self.name(st, fr, 'res')))

    def added(self, st, fr, t, n, args):
        """how many entries the operation adds"""
        if n == 'insert':
            return 1
        if len(args) != 2:
            return None
        x = args[1]
        while isinstance(x, Ref) and n != 'append':
            x = self.read(st, x.cell, x.path)
        if isinstance(x, VecV):
            return x.length()
        if isinstance(x, Agg) and x.ty is not None and self.T(x.ty)['k'] == 'array':
            return len(x.f)
        if isinstance(x, Agg) and x.ty is not None and short(self.T(x.ty)) == 'Option' and isinstance(x.v, int):
            return x.v
        return None

    def create(self, st, fr, t, ty, e):
        if e in st.ghost['made']:
            self.dirty(st, e, 'several vectors of %s' % e)
        st.ghost['made'] = tuple(sorted(set(st.ghost['made']) | {e}))
        st.ghost['len:' + e] = ZERO
        return self.result(st, fr, t, self.mk(ty, self.name(st, fr, 'res')))

    # ------------------------------------------------------------ positions made from numbers
    def rvalue(self, st, fr, rv, dty):
        v = Coarse.rvalue(self, st, fr, rv, dty)
        if rv[0] == 'agg' and rv[1][0] == 'adt' and isinstance(v, Agg) and v.ty is not None and '__const' not in st.ghost:
            n = self.idxof(v.ty)
            if n is not None and v.f:
                x = v.f[0]
                while isinstance(x, (Agg, Sym)):
                    if isinstance(x, Sym):
                        y = self.expand(x, None, st)
                        if y is None:
                            break
                        x = y
                    else:
                        if not x.f:
                            break
                        x = x.f[0]
                if isinstance(x, Lin):
                    self.created(st, fr, n, x - 1)
                else:
                    self.dirty(st, n, 'position of %s of unknown origin' % n)
        return v

    def created(self, st, fr, n, k):
        self.made += 1
        if not self.istable(n):
            return
        o = self.origin(k)
        if o is not None and o[0] == n and o[1] == 0:
            return
        if any(r[0] == n and r[1] == k for r in st.ghost['rec']):
            return
        if st.entails(k - self.length(st, n) + 1):
            return
        sp = None
        for f in reversed(st.frames):
            b = f.body['blocks'][f.bb]
            q = b['s'][f.si][-1] if f is st.frames[-1] and f.si < len(b['s']) else b['t'][-1]
            if isinstance(q, (list, tuple)) and len(q) >= 2 and 'idx.rs' not in str(q[0]):
                sp = where(q)
                break
        st.ghost['rec'] = st.ghost['rec'] + ((n, k, 0, tuple(sorted(st.act)), sp, tuple(f.uid for f in st.frames)),)

    def origin(self, ix):
        """(T, c) if the number is (the position held by an Idx<T> in memory) + c"""
        if len(ix.t) != 1 or ix.t[0][1] != 1:
            return None
        key = KEYS[ix.t[0][0]]
        if key[0] != 'nz' or not isinstance(key[1], Sym):
            return None
        s = key[1]
        if s.ty is not None and self.idxof(s.ty) is not None:
            return self.idxof(s.ty), ix.c + 1
        q = KEYS[s.k]
        if q[0] == 'fld' and isinstance(q[1], Sym) and q[1].ty is not None and self.idxof(q[1].ty) is not None:
            return self.idxof(q[1].ty), ix.c + 1
        return None

    def mentions(self, v, want, depth=0):
        """which of the wanted (T, k) does the value hold as positions"""
        if isinstance(v, Agg) and v.f:
            if v.ty is not None:
                n = self.idxof(v.ty)
                if n is not None:
                    x = v
                    while isinstance(x, Agg) and x.f:
                        x = x.f[0]
                    if isinstance(x, Lin) and (n, x - 1) in want:
                        yield (n, x - 1)
                    return
            if depth < 12:
                for x in v.f:
                    for y in self.mentions(x, want, depth + 1):
                        yield y
        elif isinstance(v, VecV):
            for c in v.ch:
                if c[0] == 'e':
                    for y in self.mentions(c[1], want, depth + 1):
                        yield y

    def escape(self, st, v):
        """the value goes into data whose contents are not followed"""
        rec = st.ghost['rec']
        if not rec:
            return
        hit = set(self.mentions(v, {(r[0], r[1]) for r in rec}))
        if hit:
            now = {f.uid for f in st.frames}
            st.ghost['rec'] = tuple((r[0], r[1], r[2] or ((r[0], r[1]) in hit and max((n, u) for n, u in enumerate(r[5]) if u in now)[1])) + r[3:] for r in rec)

    def vset(self, st, v, idx, val):
        if self.dataseq(v):
            self.escape(st, val)
        return Coarse.vset(self, st, v, idx, val)

    def write(self, st, cell, path, val):
        if path and any(p[0] == 'i' for p in path) and 'rec' in st.ghost:
            self.escape(st, val)
        return Coarse.write(self, st, cell, path, val)

    def settle_records(self, st):
        st.ghost['rec'] = tuple(r for r in st.ghost['rec'] if r[2] or not self.good_record(st, r))

    # ------------------------------------------------------------ obligations
    def site(self, fr, t):
        return (self.inst(fr.inst)['raw'].split('::<')[0], where(t[6]))

    def verdict(self, st, key, ok, what, span):
        s = self.sites.setdefault(key, dict(ok=0, bad=0, open=0))
        if ok is True:
            s['ok'] += 1
            self.good += 1
        elif ok is False:
            s['bad'] += 1
            if (key, what) not in self.bad:
                self.bad[key, what] = (span, st.trace_list()[-25:])
        else:
            s['open'] += 1
            self.openq.setdefault((key, what), span)

    def caller(self, st):
        """the place in the crate outside the index operators that asked for the access"""
        for f in reversed(st.frames):
            b = f.body['blocks'][f.bb]['t']
            q = b[-1] if isinstance(b[-1], (list, tuple)) else None
            if q and 'idx.rs' not in str(q[0]):
                return where(q)
        return None

    def judge(self, st, fr, t, what, x):
        if st.entails(Lin(1) - x):
            return self.verdict(st, self.site(fr, t), True, '', None)
        if st.entails(x):
            return self.verdict(st, self.site(fr, t), False, 'new_unchecked is given zero', t[6])
        if x.syms() and len(x.t) == 1 and x.t[0][1] == 1 and x.c <= 0:
            return self.verdict(st, self.site(fr, t), None, 'new_unchecked may be given zero', t[6])
        self.verdict(st, self.site(fr, t), None, 'new_unchecked may be given zero', t[6])

    def access(self, st, fr, t, args):
        ty = self.opty(fr, t[2][0])
        e = self.elemof(ty) if ty is not None else None
        ix = args[1]
        rt = self.place(st, fr, t[3])[2]
        key = self.site(fr, t)
        at = self.caller(st)
        tail = ' (asked for at %s:%s)' % at if at else ''
        r = self.toref(args[0])
        if not isinstance(ix, Lin) or r is None:
            self.verdict(st, key, None, 'unchecked access not understood' + tail, t[6])
            return None
        if self.istable(e) and self.plain(args[0]):
            L = self.length(st, e)
            if st.entails(ix - L + 1):
                self.verdict(st, key, True, '', None)
            else:
                o = self.origin(ix)
                d = dict(st.ghost['dirty'])
                rec = [x for x in st.ghost['rec'] if x[0] == e and not self.good_record(st, x)]
                if o is not None and o[0] == e and o[1] <= 0 and e not in d and not rec:
                    # an entry it refers to exists; a smaller number would have wrapped
                    if not st.assume([('le', Lin(1) - L), ('le', ix - L + 1)]):
                        raise PathEnd('infeasible')
                    self.verdict(st, key, True, '', None)
                elif st.entails(L - ix):
                    self.verdict(st, key, False, 'unchecked access past the end of the table of %s%s' % (e, tail), t[6])
                elif o is not None and o[0] == e and o[1] >= 1 and not self.guarded(st, ix, L):
                    self.verdict(st, key, False, 'unchecked access %d past a position of the table of %s%s' % (o[1], e, tail), t[6])
                elif o is not None and o[0] == e and any(x[2] and st.entails(L - x[1]) for x in rec):
                    x = [x for x in rec if x[2] and st.entails(L - x[1])][0]
                    late = not any(f.uid == x[2] for f in st.frames)
                    self.verdict(st, key, False if late else None, 'unchecked access while the position made at %s:%s has been stored without an entry in the table of %s%s' % ((x[4] or ('?', '?')) + (e, tail)), t[6])
                else:
                    why = d.get(e) or ('position %r' % (ix,) if o is None or o[0] != e else 'a position made ahead of its entry')
                    self.verdict(st, key, None, 'unchecked access to the table of %s not proved: %s%s' % (e, why, tail), t[6])
        else:
            v = self.read(st, r.cell, r.path)
            v = self.asvec(v)
            n = v.length()
            if st.entails(ix - n + 1):
                self.verdict(st, key, True, '', None)
            elif st.entails(n - ix):
                self.verdict(st, key, False, 'unchecked access past the end%s' % tail, t[6])
            elif self.free(st, ix):
                self.verdict(st, key, False, 'a position supplied by the caller is used unchecked%s' % tail, t[6])
            else:
                self.verdict(st, key, None, 'unchecked access not proved%s' % tail, t[6])
        return self.result(st, fr, t, Ref(r.cell, tuple(self.addp(r.path, ('i', ix)))))

    def guarded(self, st, ix, L):
        """some comparison bounds the number by the length of the table"""
        s = set(ix.syms())
        return any(s & set(l.syms()) and set(L.syms()) & set(l.syms()) for l in st.cons)

    def free(self, st, ix):
        """is the number what the caller passed, whatever it is"""
        if self.only is None or len(ix.t) != 1 or ix.t[0][1] != 1 or ix.t[0][0] not in self.only:
            return False
        return not any(ix.t[0][0] in l.syms() for l in st.cons)

    # ------------------------------------------------------------ loops, the end
    def kind(self, k):
        """is the symbol one that loop heads rename"""
        return any(KEYS[q][0] in ('top', 'at', 'hv') for q in BASE[k] | {k})

    def head(self, st, fr, bb, back):
        """states that differ in what the loop does not change are kept apart"""
        import join
        key = (fr.uid, bb)
        if not back and not self.settle(st):
            return False
        if 'rec' in st.ghost:
            g = st.ghost
            if key in g['exact'] and back:
                g['exact'] = tuple(q for q in g['exact'] if q != key)
                if not g['budget']:
                    return False
            if g['budget'] or not back and any(r[2] and st.entails(self.length(st, r[0]) - r[1]) for r in g['rec']):
                # the first round is also followed exactly
                c = st.copy()
                c.ghost['budget'] = max(0, g['budget'] - 1)
                c.ghost['exact'] = g['exact'] + (key,)
                if self.copies < 400:
                    self.copies += 1
                    self.extra.append(c)
        for k in [q for q in st.act if q[0] == fr.uid and q[1] != bb and q[1] in fr.body['_inner'].get(bb, ())]:
            del st.act[k]
        aid = self.uid('head', fr.uid, bb)
        if 'rec' in st.ghost:
            st.ghost['budget'] = 0
            st.ghost['exact'] = ()
            changed = self.changes(fr.inst)
            fixed = tuple((n, self.length(st, n)) for n in sorted(self.names - changed))
            # a later round of an enclosing loop may bring other numbers
            fixed = tuple((n, L) for n, L in fixed if all(KEYS[k][0] == 'tlen' for k in L.syms()))
            aid = self.uid('head', fr.uid, bb, fixed, st.ghost['dirty'])
        st.act[key] = (aid, 0)
        join.tidy(self, st)
        self.blur(st, aid)
        self.reach(st)
        if not self.settle(st):
            return False
        return join.at_head(self, st, aid)

    def blur(self, st, aid):
        g = st.ghost
        if 'rec' in g:
            fr = st.frames[-1]
            key = (fr.uid, fr.bb)
            rest = []
            changed = self.changes(fr.inst) & self.names
            for r in g['rec']:
                if self.good_record(st, r):
                    continue
                if key not in r[3] and r[0] not in changed and not any(self.kind(k) for k in r[1].syms()):
                    rest.append(r)
                    continue
                if r[2] and key in r[3] and st.entails(self.length(st, r[0]) - r[1]):
                    self.verdict(st, ('position', r[4]), False, 'a position of the table of %s is handed out, but the loop goes round without the entry' % r[0], r[4])
                self.dirty(st, r[0], 'a position made at %s:%s may have no entry' % (r[4] or ('?', '?')))
            g['rec'] = tuple(rest)
            ks = set()
            facts = []
            for n in sorted(changed):
                k = K('tlen', n, aid)
                L = self.length(st, n)
                ks.add(k)
                if st.entails(Lin(1) - L):
                    facts.append(('le', Lin(1) - Lin.sym(k)))
                g['len:' + n] = Lin.sym(k)
            st.cons = frozenset(l for l in st.cons if not ks & set(l.syms()))
            st.assume(facts)
        r = Coarse.blur(self, st, aid)
        return r

    def final(self, st, v):
        if '__const' in st.ghost or 'rec' not in st.ghost:
            return
        x = v
        if isinstance(x, Sym):
            x = self.expand(x, None, st)
        if isinstance(x, Agg) and x.v == 1 and x.ty is not None and short(self.T(x.ty)) == 'Result':
            return
        self.oks += 1
        for r in st.ghost['rec']:
            if self.good_record(st, r):
                self.verdict(st, ('position', r[4]), True, '', None)
            elif r[2] and st.entails(self.length(st, r[0]) - r[1]):
                self.verdict(st, ('position', r[4]), False, 'a position of the table of %s is handed out, but the call succeeds without the entry' % r[0], r[4])
            elif r[2]:
                self.verdict(st, ('position', r[4]), None, 'the position of the table of %s may have no entry' % r[0], r[4])
        for n, why in st.ghost['dirty']:
            self.verdict(st, ('table', n), None, why, None)
        for n in self.names:
            b = ('len:' + n) in st.ghost and st.entails(Lin(1) - st.ghost['len:' + n])
            self.least[n] = self.least.get(n, True) and b

    def go(self, args=None, lens=None):
        b = self.body(self.root['inst'])
        st = CState()
        st.ghost = dict(err=None, rec=(), dirty=(), made=(), budget=0, exact=())
        self.given = lens is not None
        todo, seen = [self.root['inst']], {self.root['inst']}
        while todo:
            m = todo.pop()
            c = self.body(m) if self.inst(m)['body'] else None
            if c is None or self.inst(m)['krate'] not in ('triangulate', 'harness'):
                continue
            for ty in c['locals']:
                n = self.idxof(ty)
                if n is not None:
                    self.names.add(n)
                if self.T(ty)['k'] in ('closure', 'fndef') and self.T(ty)['inst'] not in seen:
                    seen.add(self.T(ty)['inst'])
                    todo.append(self.T(ty)['inst'])
            for bl in c['blocks']:
                t = bl['t']
                if t and t[0] == 'call' and t[1][0] != 'op' and t[1][1] not in seen:
                    seen.add(t[1][1])
                    todo.append(t[1][1])
        if lens is not None:
            for n in self.names:
                L = self.length(st, n)
                if lens.get(n):
                    st.assume([('le', Lin(1) - L)])
        a = []
        self.only = set()
        for n in range(b['args']):
            ty = b['locals'][n + 1]
            k = K('in', 'arg%d' % n)
            v = self.mk(ty, k)
            if isinstance(v, Lin):
                self.only |= set(v.syms())
            t = self.T(ty)
            if t['k'] == 'param' and lens is not None:
                self.formats.add(t['s'])
            a.append(v)
        self.push(st, self.root['inst'], a, None, None)
        try:
            self.explore([st])
            while self.extra:
                self.explore([self.extra.pop()])
        except Undecided as e:
            self.undecided.append(str(e))
        return self

    def again(self, me, st, fr, t, i, vi, args):
        """formats succeed or fail at will"""
        if i['kind'] == 'unresolved' and trait_of(i, vi) in ('FanFormat', 'FanBuilder') and t[4] is not None:
            return self.result(st, fr, t, self.mk(self.place(st, fr, t[3])[2], self.name(st, fr, 'res')))
        return None


# ---------------------------------------------------------------- (A) all unsafe operations
def projections(x, out):
    if isinstance(x, list):
        if len(x) == 2 and isinstance(x[0], int) and isinstance(x[1], list) and all(isinstance(p, list) for p in x[1]):
            out.append(x)
            return
        for y in x:
            projections(y, out)


class Lint(object):
    def __init__(self, ctx, srv):
        self.ctx, self.srv = ctx, srv
        self.ops = []
        self.unchecked = []
        self.counts = {}

    def T(self, ty):
        return self.srv.type(ty, self.inst)

    def count(self, what):
        self.counts[what] = self.counts.get(what, 0) + 1

    def run(self):
        for r in self.srv.roots():
            i = self.srv.inst(r['inst'])
            if not i['body'] or '::tests::' in r['path'] or r['path'].startswith('tests::'):
                continue
            b = self.srv.body(r['inst'])
            if b is None:
                continue
            self.inst = r['inst']
            self.fn = r
            self.ctx.functions.add(i['full'])
            self.body(r, b)
        for it in self.srv.items():
            if it.get('unsafe') and len(it['span']) < 3:
                self.count('unsafe impl')
                self.ctx.bad('impl/%s' % it['path'], 'unsafe impl of %s for %s: nothing in the program justifies it' % (it.get('trait'), it.get('selfty')), it['span'])
        return self

    def foreign(self, sp):
        return bool(sp) and len(sp) > 2 and sp[2] is True

    def body(self, r, b):
        made = {}
        for bl in b['blocks']:
            for s in bl['s']:
                if s[0] == '=' and not s[1][1]:
                    made.setdefault(s[1][0], []).append(s[2])
            t = bl['t']
            if t and t[0] == 'call' and not t[3][1]:
                x = self.srv.inst(t[1][1]) if t[1][0] != 'op' else None
                # pointers made by safe means from a reference or another pointer
                if x and x['krate'] == 'core' and x['name'] in ('from_ref', 'from_mut', 'cast', 'cast_mut', 'cast_const', 'as_ptr') and len(t[2]) == 1 and x['raw'].startswith('core::ptr::'):
                    made.setdefault(t[3][0], []).append(['use', t[2][0]])
                else:
                    made.setdefault(t[3][0], []).append(['call'])
        for bl in b['blocks']:
            for s in bl['s']:
                if s[0] != '=':
                    continue
                sp = s[3]
                rv = s[2]
                if rv[0] == 'cast' and rv[1] in CASTS and not self.foreign(sp):
                    self.cast(r, b, rv, sp)
                ps = []
                projections(s[1], ps)
                projections(s[2], ps)
                self.derefs(r, b, ps, made, sp)
            t = bl['t']
            if not t:
                continue
            sp = t[-1] if isinstance(t[-1], list) else None
            if t[0] == 'call':
                ps = []
                projections(t[2], ps)
                projections(t[3], ps)
                self.derefs(r, b, ps, made, sp)
                if t[1][0] != 'op' and not self.foreign(sp):
                    self.call(r, t, sp)
            elif t[0] == 'asm':
                self.ctx.bad('asm/%s' % r['path'], '%s: inline assembly' % r['path'], sp)

    def call(self, r, t, sp):
        x = self.srv.inst(t[1][2])
        if not x.get('unsafe'):
            if x['name'] == 'cast' and x['krate'] == 'core' and x['raw'].startswith('core::ptr::') and t[2] and t[2][0][0] in ('c', 'm') and not t[2][0][1][1] and not t[3][1]:
                b = self.srv.body(r['inst'])
                self.cast(r, b, ['cast', 'PtrToPtr', t[2][0], b['locals'][t[3][0]]], sp)
            return
        if x['raw'].startswith('core::fmt::'):
            return
        n = x['name']
        self.count('call of ' + x['raw'])
        if x['krate'] == 'triangulate':
            return
        if n in UNCHECKED or n == 'new_unchecked' and 'nonzero' in x['raw'].lower():
            self.unchecked.append((r, where(sp), x['full'], sp))
            return
        self.ctx.bad('call/%s/%s' % (r['path'], x['raw']), '%s: call of the unsafe function %s, and nothing in the program guarantees what it requires' % (r['path'], x['full']), sp)

    def place_type(self, b, op):
        if op[0] in ('c', 'm') and not op[1][1]:
            return b['locals'][op[1][0]]
        return None

    def cast(self, r, b, rv, sp):
        ty = rv[3]
        fty = self.place_type(b, rv[2])
        self.count('cast ' + rv[1])
        label = 'cast/%s/%s' % (r['path'], rv[1])
        if fty is None:
            self.ctx.open('%s: cast of a value of unknown type' % r['path'])
            return
        f, t = self.T(fty), self.T(ty)
        if rv[1] == 'PtrToPtr' or rv[1] == 'Transmute' and f['k'] in ('ref', 'ptr') and t['k'] in ('ref', 'ptr'):
            if rv[1] == 'Transmute' and t.get('mut') and not f.get('mut'):
                self.ctx.bad(label, '%s: shared access is turned into exclusive access' % r['path'], sp)
                return
            q = self.layout(f['elem'], t['elem'])
            if q is True:
                self.ctx.ok()
                self.ctx.sample(dict(rule='same layout', function=r['path'], at=sp, source=self.T(f['elem'])['s'], target=self.T(t['elem'])['s']))
            else:
                self.ctx.bad(label, '%s: a pointer to %s is used as a pointer to %s, and nothing guarantees that they have the same layout%s' % (
                    r['path'], self.T(f['elem'])['s'], self.T(t['elem'])['s'], ' (%s)' % q if q else ''), sp)
            return
        if rv[1] == 'Transmute' and self.layout(fty, ty) is True:
            self.ctx.ok()
            return
        self.ctx.bad(label, '%s: %s from %s to %s, and nothing guarantees that it is valid' % (r['path'], rv[1], f['s'], t['s']), sp)

    def layout(self, a, b, depth=0):
        """True if the layouts agree by construction, otherwise a reason"""
        if a == b:
            return True
        x, y = self.T(a), self.T(b)
        if x['s'] == y['s']:
            return True
        if depth > 6:
            return None
        if x['k'] == y['k'] and x['k'] in ('slice', 'array') and x.get('len') == y.get('len'):
            return self.layout(x['elem'], y['elem'], depth + 1)
        why = None
        for p, q, o in ((x, y, b), (y, x, a)):
            if p['k'] == 'adt' and p['kind'] == 'struct':
                fs = [f[1] for f in p['variants'][0]['fields']]
                main = [f for f in fs if not (self.T(f)['k'] == 'adt' and self.T(f)['phantom']) and not (self.T(f)['k'] == 'tuple' and not self.T(f)['fields'])]
                if len(main) == 1:
                    s = self.layout(main[0], o, depth + 1)
                    if s is True:
                        if p['transparent']:
                            return True
                        why = '%s is not a transparent wrapper' % p['s']
                    elif s:
                        why = s
        return why

    def derefs(self, r, b, ps, made, sp):
        for p in ps:
            ty = b['locals'][p[0]]
            t = self.T(ty)
            if t['k'] == 'adt' and t['kind'] == 'union' and p[1] and p[1][0][0] == 'f':
                self.ctx.bad('union/%s' % r['path'], '%s: field of a union is read' % r['path'], sp)
            if t['k'] == 'ptr' and p[1] and p[1][0] == ['*']:
                q = self.source(b, p[0], made, set())
                if q == 'box':
                    continue
                self.count('raw dereference')
                if q == 'ref':
                    self.ctx.ok()
                elif q == 'static':
                    self.ctx.bad('static/%s' % r['path'], '%s: a mutable static is accessed' % r['path'], sp)
                else:
                    self.ctx.open('%s: a raw pointer of unknown origin is dereferenced at %s:%s' % (r['path'], sp[0], sp[1]))

    def source(self, b, l, made, seen):
        if l in seen:
            return 'ref'
        seen.add(l)
        rs = made.get(l)
        if not rs:
            return None
        out = set()
        for rv in rs:
            if rv[0] == 'rawptr':
                root = rv[1]
                t = self.T(b['locals'][root[0]])
                if t['k'] == 'ptr' and root[1] and root[1][0] == ['*']:
                    out.add(self.source(b, root[0], made, seen))
                else:
                    out.add('ref')
            elif rv[0] == 'cast' and rv[1] == 'BoxDerefTransmute':
                out.add('box')
            elif rv[0] in ('cast', 'use'):
                op = rv[2] if rv[0] == 'cast' else rv[1]
                if op[0] in ('c', 'm') and not op[1][1]:
                    t = self.T(b['locals'][op[1][0]])
                    out.add('ref' if t['k'] == 'ref' else self.source(b, op[1][0], made, seen) if t['k'] == 'ptr' else None)
                else:
                    out.add('static' if op[0] not in ('c', 'm') else None)
            else:
                out.add(None)
        return out.pop() if len(out) == 1 else None


def absorb(ctx, m, label):
    ctx.absorb(m, m.good, label)
    for (key, what), (span, trace) in m.bad.items():
        ctx.bad('%s/%s' % (key[0], what), what, span, trace)
    for (key, what), span in m.openq.items():
        ctx.open('%s: %s%s' % (label, what, ' [%s:%s]' % (span[0], span[1]) if span else ''))
    ctx.sample(dict(root=label, sites={'%s %s:%s' % ((k[0],) + (k[1] or ('', ''))) if isinstance(k[1], tuple) or k[1] is None else '%s %s' % k: v for k, v in m.sites.items()},
                    positions_created=m.made, paths=m.paths, steps=m.steps, tables=sorted(m.names)))


def check(ctx, srv, hsrv):
    lint = Lint(ctx, srv).run()
    for k, n in sorted(lint.counts.items()):
        ctx.count(k, n)
    rs = [r for r in hsrv.roots() if r['path'] == 'trapezoidize']
    m = Tables(hsrv, rs[0], ctx, deadline=time.time() + ctx.left() - 150, limit=3000000).go()
    if not m.oks and not m.undecided:
        ctx.open('trapezoidize: no path to success')
    absorb(ctx, m, 'trapezoidize')
    seen = {k[1] for k in m.sites}
    # the finished trapezoidation
    rs = order.pick(srv, lambda r, i: i['name'] == 'triangulate' and order.base(i) == 'Trapezoidation' and not i['trait'])
    if len(rs) == 1:
        u = Tables(srv, rs[0], ctx, deadline=time.time() + ctx.left() - 60, limit=6000000)
        if any(k for k in [u] if gets(u, rs[0]['inst'])):
            u.go(lens=m.least)
            absorb(ctx, u, 'Trapezoidation::triangulate')
            seen |= {k[1] for k in u.sites}
    # unchecked operations not met there: in the functions that hold them
    done = set()
    for r, at, full, sp in lint.unchecked:
        if at in seen or r['inst'] in done:
            continue
        done.add(r['inst'])
        u = Tables(srv, r, ctx, deadline=time.time() + 40, limit=300000)
        u.go(lens=m.least)
        public = r.get('reachable')
        for (key, what), (span, trace) in u.bad.items():
            if 'supplied by the caller' in what and not public:
                ctx.open('%s: %s' % (r['path'], what.replace('supplied by the caller', 'given as argument')))
            else:
                ctx.bad('%s/%s' % (key[0], what), '%s: %s' % (r['path'], what), span, trace)
        for (key, what), span in u.openq.items():
            ctx.open('%s: %s' % (r['path'], what))
        ctx.absorb(u, u.good, r['path'])
        if at not in {k[1] for k in u.sites}:
            ctx.open('%s: %s is never reached' % (r['path'], full))


def gets(u, n):
    """can the function reach an unchecked element access"""
    seen, todo = {n}, [n]
    while todo:
        m = todo.pop()
        b = u.body(m) if u.inst(m)['body'] else None
        if b is None:
            continue
        for bl in b['blocks']:
            t = bl['t']
            if t and t[0] == 'call' and t[1][0] != 'op':
                x = u.inst(t[1][1])
                if x['name'] in UNCHECKED and x['krate'] == 'core':
                    return True
                if t[1][1] not in seen and x['krate'] == 'triangulate':
                    seen.add(t[1][1])
                    todo.append(t[1][1])
        for ty in b['locals']:
            t = u.T(ty)
            if t['k'] in ('closure', 'fndef') and t['inst'] not in seen and u.inst(t['inst'])['krate'] == 'triangulate':
                seen.add(t['inst'])
                todo.append(t['inst'])
    return False
