"""Transfer functions for the standard library (containers, iterators, mem, num) and for opaque trait contracts
(Clone, comparison, arithmetic of type parameters). m(me, st, fr, t, i, vi, args) finishes the call through me.result."""
from values import *
from core import Undecided, PathEnd, Split, B, newuid, TRUE, FALSE

MODELS = {}
INTRINSICS = {}
# library code whose results are irrelevant to every property (formatting, backtraces, allocation of messages)
PREFIX = ['core::fmt::', 'alloc::fmt::', 'std::fmt', 'backtrace::', 'std::backtrace', 'alloc::string::', 'core::str::', 'alloc::str::',
          'rand::', 'rand_core::', 'rand_chacha::', 'core::panicking::', 'std::rt::', 'core::option::expect_failed', 'core::result::unwrap_failed',
          'alloc::raw_vec::', 'alloc::alloc::', 'std::io', 'std::env', 'svg_fmt']


def inherent(n):
    """'alloc::vec::Vec::<T, A>::push' -> ('m', 'Vec', 'push')"""
    h, m = n.rsplit('::', 1)
    if h.endswith('<impl [T]>'):
        return ('m', '[T]', m)
    if '::<' in h:
        h = h[:h.index('::<')]
    return ('m', h.split('::')[-1], m)


def selfkey(selfty, name):
    """the same for a resolved inherent method"""
    b = selfty.split('<')[0].split('::')[-1]
    return ('m', b, name)


def model(*names):
    def d(f):
        for n in names:
            MODELS[n] = f
            if isinstance(n, str) and ('::<' in n):
                MODELS[inherent(n)] = f
        return f
    return d


def intrinsic(*names):
    def d(f):
        for n in names:
            INTRINSICS[n] = f
        return f
    return d


def at(me, st, v):
    r = me.toref(v)
    if r is None:
        raise Undecided('not a reference: %r' % (v,))
    return me.read(st, r.cell, r.path)


def put(me, st, v, x):
    r = me.toref(v)
    me.write(st, r.cell, r.path, x)


def vec(me, st, v):
    return me.asvec(at(me, st, v))


def dty(me, st, fr, t):
    return me.place(st, fr, t[3])[2]


def unit(me, st, fr, t):
    return me.result(st, fr, t, Agg(dty(me, st, fr, t), 0, ()))


def some(me, ty, x):
    return Agg(ty, 1, [x])


def none(me, ty):
    return Agg(ty, 0, ())


def panic(st, t):
    st.note(('panic', t[6]))
    raise PathEnd('panic')


# ------------------------------------------------------------------ Vec
@model('alloc::vec::Vec::<T>::new', 'alloc::vec::Vec::<T>::with_capacity', 'smallvec::SmallVec::<A>::new', 'smallvec::SmallVec::<A>::with_capacity',
       ('Default', 'default', 'std::vec::Vec'), ('Default', 'default', 'alloc::vec::Vec'), ('Default', 'default', 'smallvec::SmallVec'))
def vec_new(me, st, fr, t, i, vi, a):
    return me.result(st, fr, t, VecV(dty(me, st, fr, t)))


@model('alloc::vec::Vec::<T, A>::push', 'smallvec::SmallVec::<A>::push')
def vec_push(me, st, fr, t, i, vi, a):
    v = vec(me, st, a[0])
    put(me, st, a[0], me.vpush(v, a[1]))
    return unit(me, st, fr, t)


@model('alloc::vec::Vec::<T, A>::pop', 'smallvec::SmallVec::<A>::pop')
def vec_pop(me, st, fr, t, i, vi, a):
    v = vec(me, st, a[0])
    x, rest = me.vpop(st, v)
    ty = dty(me, st, fr, t)
    put(me, st, a[0], rest)
    return me.result(st, fr, t, none(me, ty) if x is None else some(me, ty, x))


@model('alloc::vec::Vec::<T, A>::len', 'smallvec::SmallVec::<A>::len', 'core::slice::<impl [T]>::len')
def vec_len(me, st, fr, t, i, vi, a):
    return me.result(st, fr, t, vec(me, st, a[0]).length())


@model('alloc::vec::Vec::<T, A>::is_empty', 'smallvec::SmallVec::<A>::is_empty', 'core::slice::<impl [T]>::is_empty')
def vec_is_empty(me, st, fr, t, i, vi, a):
    return me.result(st, fr, t, B(st.le(vec(me, st, a[0]).length())))


@model('alloc::vec::Vec::<T, A>::truncate', 'smallvec::SmallVec::<A>::truncate')
def vec_truncate(me, st, fr, t, i, vi, a):
    v = vec(me, st, a[0])
    n = me.int(a[1])
    if st.le(n - v.length()):
        put(me, st, a[0], me.vtrunc(st, v, n))
    return unit(me, st, fr, t)


@model('alloc::vec::Vec::<T, A>::clear', 'smallvec::SmallVec::<A>::clear')
def vec_clear(me, st, fr, t, i, vi, a):
    put(me, st, a[0], VecV(vec(me, st, a[0]).ty))
    return unit(me, st, fr, t)


@model('alloc::vec::Vec::<T, A>::reserve', 'alloc::vec::Vec::<T, A>::shrink_to_fit', 'alloc::vec::Vec::<T, A>::reserve_exact',
       'smallvec::SmallVec::<A>::reserve', 'smallvec::SmallVec::<A>::shrink_to_fit')
def vec_nop(me, st, fr, t, i, vi, a):
    return unit(me, st, fr, t)


@model('alloc::vec::Vec::<T, A>::capacity', 'smallvec::SmallVec::<A>::capacity')
def vec_cap(me, st, fr, t, i, vi, a):
    v = vec(me, st, a[0])
    k = Lin.sym(fresh('cap'))
    st.assume([('le', v.length() - k)])
    return me.result(st, fr, t, k)


@model('alloc::vec::Vec::<T, A>::insert')
def vec_insert(me, st, fr, t, i, vi, a):
    v = vec(me, st, a[0])
    n = me.int(a[1])
    if not st.le(n - v.length()):
        panic(st, t)
    h, r = me.vtrunc(st, v, n), me.vskip(st, v, n)
    put(me, st, a[0], VecV(v.ty, h.ch + (('e', a[2]),) + r.ch, h.w if not r.w else (), v.tag))
    return unit(me, st, fr, t)


@model('alloc::vec::Vec::<T, A>::remove', 'smallvec::SmallVec::<A>::remove')
def vec_remove(me, st, fr, t, i, vi, a):
    v = vec(me, st, a[0])
    n = me.int(a[1])
    if not st.le(n - v.length() + 1):
        panic(st, t)
    x = me.vget(st, v, n)
    v2 = me.vmat(st, v)
    h, r = me.vtrunc(st, v2, n), me.vskip(st, v2, n + 1)
    put(me, st, a[0], VecV(v.ty, h.ch + r.ch, (), v.tag))
    return me.result(st, fr, t, x)


@model('alloc::vec::Vec::<T, A>::swap_remove', 'smallvec::SmallVec::<A>::swap_remove')
def vec_swap_remove(me, st, fr, t, i, vi, a):
    v = vec(me, st, a[0])
    n = me.int(a[1])
    if not st.le(n - v.length() + 1):
        panic(st, t)
    x = me.vget(st, v, n)
    last, rest = me.vpop(st, v)
    if not st.eqint(n, v.length() - 1):
        rest = me.vset(st, rest, n, last)
    put(me, st, a[0], rest)
    return me.result(st, fr, t, x)


@model('alloc::vec::Vec::<T, A>::append')
def vec_append(me, st, fr, t, i, vi, a):
    v, w = vec(me, st, a[0]), me.vmat(st, vec(me, st, a[1]))
    put(me, st, a[0], VecV(v.ty, v.ch + w.ch, v.w, v.tag))
    put(me, st, a[1], VecV(w.ty))
    return unit(me, st, fr, t)


@model('alloc::vec::Vec::<T, A>::extend_from_slice', 'smallvec::SmallVec::<A>::extend_from_slice')
def vec_extend_slice(me, st, fr, t, i, vi, a):
    v, w = vec(me, st, a[0]), me.vmat(st, vec(me, st, a[1]))
    put(me, st, a[0], VecV(v.ty, v.ch + w.ch, v.w, v.tag))
    return unit(me, st, fr, t)


@model('alloc::vec::Vec::<T, A>::as_slice', 'alloc::vec::Vec::<T, A>::as_mut_slice', 'smallvec::SmallVec::<A>::as_slice', 'smallvec::SmallVec::<A>::as_mut_slice',
       ('Deref', 'deref', 'std::vec::Vec'), ('DerefMut', 'deref_mut', 'std::vec::Vec'), ('Deref', 'deref', 'alloc::vec::Vec'), ('DerefMut', 'deref_mut', 'alloc::vec::Vec'),
       ('Deref', 'deref', 'smallvec::SmallVec'), ('DerefMut', 'deref_mut', 'smallvec::SmallVec'),
       ('AsRef', 'as_ref', 'std::vec::Vec'), ('AsRef', 'as_ref', 'alloc::vec::Vec'), ('Borrow', 'borrow', 'std::vec::Vec'), ('Borrow', 'borrow', 'alloc::vec::Vec'),
       ('AsMut', 'as_mut', 'alloc::vec::Vec'), ('AsMut', 'as_mut', 'std::vec::Vec'),
       ('Deref', 'deref', 'std::boxed::Box'), ('DerefMut', 'deref_mut', 'std::boxed::Box'), ('Deref', 'deref', 'alloc::boxed::Box'), ('DerefMut', 'deref_mut', 'alloc::boxed::Box'))
def same_ref(me, st, fr, t, i, vi, a):
    r = me.toref(a[0])
    if vi['trait'] and (i['selfty'] or '').split('<')[0].endswith('Box'):
        r = me.toref(me.read(st, r.cell, r.path))
    return me.result(st, fr, t, r)


@model('alloc::slice::<impl [T]>::into_vec')
def box_into_vec(me, st, fr, t, i, vi, a):
    r = me.toref(a[0])
    v = me.asvec(me.read(st, r.cell, r.path))
    return me.result(st, fr, t, VecV(dty(me, st, fr, t), v.ch, v.w))


@model('alloc::vec::Vec::<T, A>::into_boxed_slice')
def into_boxed_slice(me, st, fr, t, i, vi, a):
    ty = dty(me, st, fr, t)
    cell = ('box', newuid())
    st.mem[cell] = a[0]
    return me.result(st, fr, t, me.mkbox(ty, Ref(cell)))


@model('alloc::boxed::Box::<T>::new', 'alloc::boxed::box_new', 'alloc::boxed::Box::<T>::pin')
def box_new(me, st, fr, t, i, vi, a):
    cell = ('box', newuid())
    st.mem[cell] = a[0]
    return me.result(st, fr, t, me.mkbox(dty(me, st, fr, t), Ref(cell)))


@model('alloc::boxed::Box::<T>::new_uninit')
def box_uninit(me, st, fr, t, i, vi, a):
    cell = ('box', newuid())
    st.mem[cell] = Agg(None, 'u', [UNDEF])
    return me.result(st, fr, t, me.mkbox(dty(me, st, fr, t), Ref(cell)))


@model('alloc::boxed::box_assume_init_into_vec_unsafe')
def box_vec(me, st, fr, t, i, vi, a):
    v = at(me, st, a[0])
    while isinstance(v, Agg) and (v.v == 'u' or v.ty is None or me.T(v.ty)['k'] != 'array'):
        if len(v.f) != 1:
            raise Undecided('boxed array')
        v = v.f[0]
    v = me.asvec(v)
    return me.result(st, fr, t, VecV(dty(me, st, fr, t), v.ch, v.w))


# ------------------------------------------------------------------ indexing
def resolve_index(me, st, v, ix, t):
    """('i', n) or ('sub', start, len) or None for a panic"""
    n = v.length()
    if isinstance(ix, Lin):
        return ('i', ix) if st.le(ix - n + 1) else None
    if isinstance(ix, Sym):
        x = me.expand(ix, None, st)
        if x is None:
            raise Undecided('index %r' % (ix,))
        ix = x
    if isinstance(ix, Agg):
        tt = me.T(ix.ty)
        nm = tt['raw'] if tt['k'] == 'adt' else ''
        if nm.endswith('RangeFull'):
            return ('sub', ZERO, n)
        if nm.endswith('RangeFrom'):
            s = me.int(ix.f[0])
            return ('sub', s, n - s) if st.le(s - n) else None
        if nm.endswith('RangeTo'):
            e = me.int(ix.f[0])
            return ('sub', ZERO, e) if st.le(e - n) else None
        if nm.endswith('RangeToInclusive'):
            e = me.int(ix.f[0]) + 1
            return ('sub', ZERO, e) if st.le(e - n) else None
        if nm.endswith('RangeInclusive'):
            s, e = me.int(ix.f[0]), me.int(ix.f[1]) + 1
            return ('sub', s, e - s) if st.le(s - e) and st.le(e - n) else None
        if nm.endswith('Range'):
            s, e = me.int(ix.f[0]), me.int(ix.f[1])
            return ('sub', s, e - s) if st.le(s - e) and st.le(e - n) else None
    raise Undecided('index %r' % (ix,))


def do_index(me, st, fr, t, i, vi, a):
    if i['krate'] not in ('core', 'alloc', 'std', 'smallvec') and i['kind'] != 'unresolved':
        return NotImplemented
    r = me.toref(a[0])
    v = me.read(st, r.cell, r.path)
    if isinstance(v, Agg) and v.ty is not None and me.T(v.ty).get('box'):
        r = me.toref(v)
        v = me.read(st, r.cell, r.path)
    if not isinstance(v, (VecV, Agg)) and not (isinstance(v, Sym) and me.T(v.ty)['k'] == 'array'):
        return NotImplemented
    p = resolve_index(me, st, me.asvec(v), a[1], t)
    if p is None:
        panic(st, t)
    if p[0] == 'sub' and p[1] == ZERO and p[2] == me.asvec(v).length():
        return me.result(st, fr, t, r)
    return me.result(st, fr, t, Ref(r.cell, tuple(me.addp(r.path, p))))


for _t, _n in (('Index', 'index'), ('IndexMut', 'index_mut')):
    for _s in ('std::vec::Vec', 'alloc::vec::Vec', 'smallvec::SmallVec', '[T]', '[T; N]'):
        MODELS[(_t, _n, _s)] = do_index


@model('core::slice::<impl [T]>::get_unchecked', 'core::slice::<impl [T]>::get_unchecked_mut')
def get_unchecked(me, st, fr, t, i, vi, a):
    v = vec(me, st, a[0])
    r = me.toref(a[0])
    if not isinstance(a[1], Lin):
        p = resolve_index(me, st, v, a[1], t)
        if p is None:
            raise PathEnd('out of bounds')
        return me.result(st, fr, t, Ref(r.cell, tuple(me.addp(r.path, p))))
    if not st.entails(a[1] - v.length() + 1):
        me.unchecked(st, fr, t, a[1], v)
    return me.result(st, fr, t, Ref(r.cell, tuple(me.addp(r.path, ('i', a[1])))))


@model('core::slice::<impl [T]>::get', 'core::slice::<impl [T]>::get_mut')
def slice_get(me, st, fr, t, i, vi, a):
    v = vec(me, st, a[0])
    p = resolve_index(me, st, v, a[1], t)
    ty = dty(me, st, fr, t)
    if p is None:
        return me.result(st, fr, t, none(me, ty))
    r = me.toref(a[0])
    return me.result(st, fr, t, some(me, ty, Ref(r.cell, tuple(me.addp(r.path, p)))))


@model('core::slice::<impl [T]>::first', 'core::slice::<impl [T]>::first_mut')
def slice_first(me, st, fr, t, i, vi, a):
    v = vec(me, st, a[0])
    ty = dty(me, st, fr, t)
    if st.le(v.length()):
        return me.result(st, fr, t, none(me, ty))
    r = me.toref(a[0])
    return me.result(st, fr, t, some(me, ty, Ref(r.cell, tuple(me.addp(r.path, ('i', ZERO))))))


@model('core::slice::<impl [T]>::last', 'core::slice::<impl [T]>::last_mut')
def slice_last(me, st, fr, t, i, vi, a):
    v = vec(me, st, a[0])
    ty = dty(me, st, fr, t)
    if st.le(v.length()):
        return me.result(st, fr, t, none(me, ty))
    r = me.toref(a[0])
    return me.result(st, fr, t, some(me, ty, Ref(r.cell, tuple(me.addp(r.path, ('i', v.length() - 1))))))


@model('core::slice::<impl [T]>::split_at')
def slice_split_at(me, st, fr, t, i, vi, a):
    v = vec(me, st, a[0])
    n = me.int(a[1])
    if not st.le(n - v.length()):
        panic(st, t)
    r = me.toref(a[0])
    return me.result(st, fr, t, Agg(dty(me, st, fr, t), 0, [Ref(r.cell, tuple(me.addp(r.path, ('sub', ZERO, n)))),
                                                           Ref(r.cell, tuple(me.addp(r.path, ('sub', n, v.length() - n))))]))


@model('core::slice::<impl [T]>::swap')
def slice_swap(me, st, fr, t, i, vi, a):
    r = me.toref(a[0])
    v = vec(me, st, a[0])
    x, y = me.int(a[1]), me.int(a[2])
    if not st.le(x - v.length() + 1) or not st.le(y - v.length() + 1):
        panic(st, t)
    p, q = tuple(me.addp(r.path, ('i', x))), tuple(me.addp(r.path, ('i', y)))
    vx, vy = me.read(st, r.cell, p), me.read(st, r.cell, q)
    if not st.eqint(x, y):
        tmp = st.mem[r.cell]
        n = me.setp(st, tmp, p, vy)
        n = me.setp(st, n, q, vx)
        st.mem[r.cell] = n
    return unit(me, st, fr, t)


@model('core::slice::<impl [T]>::reverse')
def slice_reverse(me, st, fr, t, i, vi, a):
    v = vec(me, st, a[0])
    if any(c[0] == 's' for c in v.ch):
        raise Undecided('reverse of an unknown sequence')
    put(me, st, a[0], VecV(v.ty, v.ch[::-1], (), v.tag))
    return unit(me, st, fr, t)


@model('alloc::slice::<impl [T]>::to_vec', 'alloc::slice::<impl [T]>::to_owned')
def to_vec(me, st, fr, t, i, vi, a):
    v = vec(me, st, a[0])
    return me.result(st, fr, t, VecV(dty(me, st, fr, t), v.ch, v.w))


# ------------------------------------------------------------------ iterators over sequences
# by reference: Agg(ty, 'it', (Ref to the sequence, lo, hi)); by value: Agg(ty, 'iv', (VecV,))
@model('core::slice::<impl [T]>::iter', 'core::slice::<impl [T]>::iter_mut')
def slice_iter(me, st, fr, t, i, vi, a):
    r = me.toref(a[0])
    v = vec(me, st, a[0])
    return me.result(st, fr, t, Agg(dty(me, st, fr, t), 'it', [r, ZERO, v.length()]))


def ref_into_iter(me, st, fr, t, i, vi, a):
    r = me.toref(a[0])
    v = me.read(st, r.cell, r.path)
    if isinstance(v, (VecV,)) or (isinstance(v, Agg) and v.ty is not None and me.T(v.ty)['k'] == 'array'):
        return me.result(st, fr, t, Agg(dty(me, st, fr, t), 'it', [r, ZERO, me.asvec(v).length()]))
    return NotImplemented


for _s in ("&'a alloc::vec::Vec", "&'a mut alloc::vec::Vec", "&'a std::vec::Vec", "&'a mut std::vec::Vec", "&'a [T]", "&'a mut [T]", "&'a [T; N]", "&'a mut [T; N]",
           "&'a smallvec::SmallVec", "&'a mut smallvec::SmallVec", "&alloc::vec::Vec", "&mut alloc::vec::Vec", "&[T]", "&mut [T]", "&[T; N]", "&mut [T; N]", '&std::vec::Vec', '&mut std::vec::Vec',
           "&smallvec::SmallVec", "&mut smallvec::SmallVec"):
    MODELS[('IntoIterator', 'into_iter', _s)] = ref_into_iter


def val_into_iter(me, st, fr, t, i, vi, a):
    v = a[0]
    if isinstance(v, Sym):
        v = me.asvec(v)
    if isinstance(v, Agg) and not (v.ty is not None and me.T(v.ty)['k'] == 'array'):
        return NotImplemented
    v = me.asvec(v)
    return me.result(st, fr, t, Agg(dty(me, st, fr, t), 'iv', [me.vmat(st, v)]))


for _s in ('alloc::vec::Vec', 'std::vec::Vec', 'smallvec::SmallVec', '[T; N]'):
    MODELS[('IntoIterator', 'into_iter', _s)] = val_into_iter


def it_next(me, st, fr, t, i, vi, a):
    r = me.toref_plain(a[0])
    it = me.read(st, r.cell, r.path)
    ty = dty(me, st, fr, t)
    if isinstance(it, Agg) and it.v == 'it':
        base, lo, hi = it.f
        if not st.le(lo - hi + 1):
            return me.result(st, fr, t, none(me, ty))
        me.write(st, r.cell, r.path, Agg(it.ty, 'it', [base, lo + 1, hi]))
        return me.result(st, fr, t, some(me, ty, Ref(base.cell, tuple(me.addp(base.path, ('i', lo))))))
    if isinstance(it, Agg) and it.v == 'iv':
        v = it.f[0]
        if st.le(v.length()):
            return me.result(st, fr, t, none(me, ty))
        x = me.vget(st, v, ZERO)
        rest = me.vskip(st, v, ONE)
        me.write(st, r.cell, r.path, Agg(it.ty, 'iv', [rest]))
        return me.result(st, fr, t, some(me, ty, x))
    return NotImplemented


def it_next_back(me, st, fr, t, i, vi, a):
    r = me.toref_plain(a[0])
    it = me.read(st, r.cell, r.path)
    ty = dty(me, st, fr, t)
    if isinstance(it, Agg) and it.v == 'it':
        base, lo, hi = it.f
        if not st.le(lo - hi + 1):
            return me.result(st, fr, t, none(me, ty))
        me.write(st, r.cell, r.path, Agg(it.ty, 'it', [base, lo, hi - 1]))
        return me.result(st, fr, t, some(me, ty, Ref(base.cell, tuple(me.addp(base.path, ('i', hi - 1))))))
    if isinstance(it, Agg) and it.v == 'iv':
        x, rest = me.vpop(st, it.f[0])
        me.write(st, r.cell, r.path, Agg(it.ty, 'iv', [rest]))
        return me.result(st, fr, t, none(me, ty) if x is None else some(me, ty, x))
    return NotImplemented


def it_len(me, st, it):
    if isinstance(it, Agg) and it.v == 'it':
        return it.f[2] - it.f[1]
    if isinstance(it, Agg) and it.v == 'iv':
        return it.f[0].length()
    return None


def it_size_hint(me, st, fr, t, i, vi, a):
    n = it_len(me, st, at(me, st, a[0]))
    if n is None:
        return NotImplemented
    ty = dty(me, st, fr, t)
    o = me.fields(ty)[1]
    return me.result(st, fr, t, Agg(ty, 0, [n, Agg(o, 1, [n])]))


def it_exact_len(me, st, fr, t, i, vi, a):
    n = it_len(me, st, at(me, st, a[0]))
    if n is None:
        return NotImplemented
    return me.result(st, fr, t, n)


for _s in ('core::slice::Iter', 'core::slice::IterMut', 'std::slice::Iter', 'std::slice::IterMut', 'alloc::vec::IntoIter', 'std::vec::IntoIter', 'smallvec::IntoIter',
           'core::array::IntoIter', 'std::array::IntoIter', 'alloc::vec::into_iter::IntoIter', 'core::array::iter::IntoIter', 'core::slice::iter::Iter', 'core::slice::iter::IterMut'):
    MODELS[('Iterator', 'next', _s)] = it_next
    MODELS[('DoubleEndedIterator', 'next_back', _s)] = it_next_back
    MODELS[('Iterator', 'size_hint', _s)] = it_size_hint
    MODELS[('ExactSizeIterator', 'len', _s)] = it_exact_len


# integer ranges
def range_next(me, st, fr, t, i, vi, a):
    r = me.toref_plain(a[0])
    v = me.read(st, r.cell, r.path)
    if isinstance(v, Sym):
        v = me.expand(v, None, st) or v
    if not (isinstance(v, Agg) and isinstance(v.f[0], Lin)):
        return NotImplemented
    ty = dty(me, st, fr, t)
    lo, hi = v.f[0], v.f[1]
    if not st.le(lo - hi + 1):
        return me.result(st, fr, t, none(me, ty))
    me.write(st, r.cell, r.path, Agg(v.ty, 0, [lo + 1, hi]))
    return me.result(st, fr, t, some(me, ty, lo))


def range_next_back(me, st, fr, t, i, vi, a):
    r = me.toref_plain(a[0])
    v = me.read(st, r.cell, r.path)
    if isinstance(v, Sym):
        v = me.expand(v, None, st) or v
    if not (isinstance(v, Agg) and isinstance(v.f[0], Lin)):
        return NotImplemented
    ty = dty(me, st, fr, t)
    lo, hi = v.f[0], v.f[1]
    if not st.le(lo - hi + 1):
        return me.result(st, fr, t, none(me, ty))
    me.write(st, r.cell, r.path, Agg(v.ty, 0, [lo, hi - 1]))
    return me.result(st, fr, t, some(me, ty, hi - 1))


for _s in ('core::ops::Range', 'std::ops::Range', 'core::ops::range::Range'):
    MODELS[('Iterator', 'next', _s)] = range_next
    MODELS[('DoubleEndedIterator', 'next_back', _s)] = range_next_back


# ------------------------------------------------------------------ mem, num
@model('core::mem::replace')
def mem_replace(me, st, fr, t, i, vi, a):
    old = at(me, st, a[0])
    put(me, st, a[0], a[1])
    return me.result(st, fr, t, old)


@model('core::mem::swap')
def mem_swap(me, st, fr, t, i, vi, a):
    x, y = at(me, st, a[0]), at(me, st, a[1])
    put(me, st, a[0], y)
    put(me, st, a[1], x)
    return unit(me, st, fr, t)


@model('core::mem::forget', 'core::mem::drop')
def mem_drop(me, st, fr, t, i, vi, a):
    if i['name'] == 'drop' and me.on_drop:
        me.on_drop(me, st, a[0], me.opty(fr, t[2][0]), t[6])
    return unit(me, st, fr, t)


@model('core::num::nonzero::NonZero::<T>::get', 'core::num::nonzero::NonZero::<usize>::get')
def nz_get(me, st, fr, t, i, vi, a):
    v = me.int(a[0])
    return me.result(st, fr, t, v)


@model('core::num::nonzero::NonZero::<T>::new_unchecked')
def nz_new_unchecked(me, st, fr, t, i, vi, a):
    return me.result(st, fr, t, Agg(dty(me, st, fr, t), 0, [a[0]]))


@model('core::num::nonzero::NonZero::<T>::new')
def nz_new(me, st, fr, t, i, vi, a):
    ty = dty(me, st, fr, t)
    v = me.int(a[0])
    if st.le(v):
        return me.result(st, fr, t, none(me, ty))
    return me.result(st, fr, t, some(me, ty, Agg(me.fields(ty, 1)[0], 0, [v])))


# ------------------------------------------------------------------ Clone / comparison contracts of opaque types
@model(('Clone', 'clone'))
def clone(me, st, fr, t, i, vi, a):
    return me.result(st, fr, t, at(me, st, a[0]))


clone.weak = True
for _s in ('std::vec::Vec', 'alloc::vec::Vec', 'smallvec::SmallVec'):
    MODELS[('Clone', 'clone', _s)] = clone


def opaque_ty(me, v):
    """is it a value of a type parameter (or a primitive): comparable only by contract"""
    return isinstance(v, (Sym, Lin))


def eq_values(me, st, x, y):
    """equality by contract: True/False, forking when open"""
    while isinstance(x, Ref) and isinstance(y, Ref):
        x, y = me.read(st, x.cell, x.path), me.read(st, y.cell, y.path)
    if isinstance(x, Lin) and isinstance(y, Lin):
        return st.eqint(x, y)
    if isinstance(x, Sym) and isinstance(y, Sym):
        if me.T(x.ty)['k'] in ('param', 'alias', 'opaque', 'other') and me.eq_mode(x.ty) == 'eq':
            if x.k == y.k:
                return True
            p, q = (x, y) if x.k <= y.k else (y, x)
            k = K('eq', p, q)
            b = st.bl.get(k)
            if b is not None:
                return b
            raise Split([('bool', k, True)], [('bool', k, False)])
        if me.T(x.ty)['k'] in ('param', 'alias', 'opaque', 'other', 'float', 'int', 'char'):
            return me.ordcmp(st, 'Eq', x, y)
        if me.T(x.ty)['k'] == 'bool':
            return me.truth(st, x) == me.truth(st, y)
    if isinstance(x, (Sym, Agg)) and isinstance(y, (Sym, Agg)) and x.ty is not None and y.ty is not None:
        tx = me.T(x.ty)
        if tx['k'] == 'adt' and tx['kind'] == 'enum':
            p, q = me.variant(st, x), me.variant(st, y)
            if p != q:
                return False
            x = x if isinstance(x, Agg) else me.expand(x, p, st)
            y = y if isinstance(y, Agg) else me.expand(y, q, st)
        else:
            x = x if isinstance(x, Agg) else me.expand(x, None, st)
            y = y if isinstance(y, Agg) else me.expand(y, None, st)
        if x is None or y is None:
            raise Undecided('comparison')
        for u, v in zip(x.f, y.f):
            if not eq_values(me, st, u, v):
                return False
        return True
    raise Undecided('comparison of %r and %r' % (x, y))


@model(('PartialEq', 'eq'), ('PartialEq', 'ne'))
def partial_eq(me, st, fr, t, i, vi, a):
    x, y = at(me, st, a[0]), at(me, st, a[1])
    r = eq_values(me, st, x, y)
    return me.result(st, fr, t, B(r if i['name'] == 'eq' else not r))


partial_eq.weak = True
for _s in ('core::num::nonzero::NonZero', 'std::num::NonZero'):
    MODELS[('PartialEq', 'eq', _s)] = partial_eq
    MODELS[('PartialEq', 'ne', _s)] = partial_eq


@model(('SpecArrayEq', 'spec_eq'), ('SpecArrayEq', 'spec_ne'), ('SlicePartialEq', 'equal'), ('SlicePartialEq', 'not_equal'))
def array_eq(me, st, fr, t, i, vi, a):
    x, y = at(me, st, a[0]), at(me, st, a[1])
    if not (isinstance(x, (Agg, Sym)) and isinstance(y, (Agg, Sym))):
        return NotImplemented
    r = eq_values(me, st, x, y)
    return me.result(st, fr, t, B(r if i['name'] in ('spec_eq', 'equal') else not r))


@model(('PartialOrd', 'lt'), ('PartialOrd', 'le'), ('PartialOrd', 'gt'), ('PartialOrd', 'ge'))
def partial_ord(me, st, fr, t, i, vi, a):
    x, y = at(me, st, a[0]), at(me, st, a[1])
    while isinstance(x, Ref) and isinstance(y, Ref):
        x, y = me.read(st, x.cell, x.path), me.read(st, y.cell, y.path)
    if isinstance(x, Agg) and len(x.f) == 1 and isinstance(x.f[0], Lin):
        x, y = me.int(x), me.int(y)
    op = {'lt': 'Lt', 'le': 'Le', 'gt': 'Gt', 'ge': 'Ge'}[i['name']]
    if isinstance(x, Lin) and isinstance(y, Lin):
        return me.result(st, fr, t, me.binop(st, op, x, y, None))
    if isinstance(x, Sym) and isinstance(y, Sym) and me.scalar(x.ty):
        return me.result(st, fr, t, B(me.ordcmp(st, op, x, y)))
    return NotImplemented


partial_ord.weak = True


@model(('PartialOrd', 'partial_cmp'))
def partial_cmp(me, st, fr, t, i, vi, a):
    x, y = at(me, st, a[0]), at(me, st, a[1])
    ty = dty(me, st, fr, t)
    o = me.fields(ty, 1)[0]
    if isinstance(x, Lin) and isinstance(y, Lin):
        return me.result(st, fr, t, Agg(ty, 1, [Agg(o, st.cmp(x, y) + 1, ())]))
    if isinstance(x, Sym) and isinstance(y, Sym) and me.scalar(x.ty):
        c = me.ordsplit(st, x, y)
        if c == 'u':
            return me.result(st, fr, t, Agg(ty, 0, ()))
        return me.result(st, fr, t, Agg(ty, 1, [Agg(o, '<=>'.index(c), ())]))
    return NotImplemented


partial_cmp.weak = True


@model(('Ord', 'cmp'))
def ord_cmp(me, st, fr, t, i, vi, a):
    x, y = at(me, st, a[0]), at(me, st, a[1])
    ty = dty(me, st, fr, t)
    if isinstance(x, Lin) and isinstance(y, Lin):
        return me.result(st, fr, t, Agg(ty, st.cmp(x, y) + 1, ()))
    if isinstance(x, Sym) and isinstance(y, Sym) and me.scalar(x.ty):
        c = me.ordsplit(st, x, y)
        if c == 'u':
            raise PathEnd('unordered')
        return me.result(st, fr, t, Agg(ty, '<=>'.index(c), ()))
    return NotImplemented


ord_cmp.weak = True


# arithmetic of opaque number types
def arith(op):
    def f(me, st, fr, t, i, vi, a):
        x, y = a
        while isinstance(x, Ref):
            x = me.read(st, x.cell, x.path)
        while isinstance(y, Ref):
            y = me.read(st, y.cell, y.path)
        if isinstance(x, Lin) and isinstance(y, Lin):
            return NotImplemented
        return me.result(st, fr, t, Sym(K('op', op, x, y), dty(me, st, fr, t)))
    f.weak = True
    return f


for _t, _n in (('Add', 'add'), ('Sub', 'sub'), ('Mul', 'mul'), ('Div', 'div'), ('Rem', 'rem')):
    MODELS[(_t, _n)] = arith(_t)


@model(('Neg', 'neg'))
def neg(me, st, fr, t, i, vi, a):
    return me.result(st, fr, t, Sym(K('op', 'neg', a[0]), dty(me, st, fr, t)))


neg.weak = True


@model(('Zero', 'zero'), ('One', 'one'))
def zero(me, st, fr, t, i, vi, a):
    return me.result(st, fr, t, Sym(K('num', i['name']), dty(me, st, fr, t)))


zero.weak = True


@model(('Zero', 'is_zero'))
def is_zero(me, st, fr, t, i, vi, a):
    x = at(me, st, a[0])
    return me.result(st, fr, t, B(me.ordcmp(st, 'Eq', x, Sym(K('num', 'zero'), x.ty))))


is_zero.weak = True


# ------------------------------------------------------------------ intrinsics
@intrinsic('assume', 'assert_inhabited', 'assert_zero_valid', 'assert_mem_uninitialized_valid', 'cold_path')
def i_nop(me, st, fr, t, i, vi, a):
    return me.result(st, fr, t, Agg(None, 0, ()))


@intrinsic('black_box', 'likely', 'unlikely')
def i_id(me, st, fr, t, i, vi, a):
    return me.result(st, fr, t, a[0])


@intrinsic('abort', 'unreachable')
def i_abort(me, st, fr, t, i, vi, a):
    raise PathEnd('abort')


@intrinsic('needs_drop', 'ub_checks', 'contract_checks', 'overflow_checks', 'is_val_statically_known')
def i_false(me, st, fr, t, i, vi, a):
    return me.result(st, fr, t, FALSE)


@intrinsic('discriminant_value')
def i_discr(me, st, fr, t, i, vi, a):
    v = at(me, st, a[0])
    return me.result(st, fr, t, me.discr(st, v, v.ty))


@intrinsic('size_of', 'align_of', 'min_align_of', 'size_of_val')
def i_size(me, st, fr, t, i, vi, a):
    k = Lin.sym(K('size', i['full']))
    return me.result(st, fr, t, k)


def _wrap(op):
    def f(me, st, fr, t, i, vi, a):
        return me.result(st, fr, t, me.binop(st, op, a[0], a[1], dty(me, st, fr, t)))
    return f


for _n, _o in (('wrapping_add', 'Add'), ('wrapping_sub', 'Sub'), ('wrapping_mul', 'Mul'), ('unchecked_add', 'AddUnchecked'), ('unchecked_sub', 'SubUnchecked'),
               ('unchecked_mul', 'MulUnchecked'), ('unchecked_div', 'Div'), ('unchecked_rem', 'Rem'), ('exact_div', 'Div')):
    INTRINSICS[_n] = _wrap(_o)


@intrinsic('add_with_overflow')
def i_addo(me, st, fr, t, i, vi, a):
    return me.result(st, fr, t, me.binop(st, 'AddWithOverflow', a[0], a[1], dty(me, st, fr, t)))


@intrinsic('sub_with_overflow')
def i_subo(me, st, fr, t, i, vi, a):
    return me.result(st, fr, t, me.binop(st, 'SubWithOverflow', a[0], a[1], dty(me, st, fr, t)))


@intrinsic('mul_with_overflow')
def i_mulo(me, st, fr, t, i, vi, a):
    return me.result(st, fr, t, me.binop(st, 'MulWithOverflow', a[0], a[1], dty(me, st, fr, t)))


@intrinsic('three_way_compare')
def i_cmp(me, st, fr, t, i, vi, a):
    return me.result(st, fr, t, me.binop(st, 'Cmp', a[0], a[1], dty(me, st, fr, t)))


@intrinsic('saturating_sub')
def i_satsub(me, st, fr, t, i, vi, a):
    if st.le(a[0] - a[1]):
        return me.result(st, fr, t, ZERO)
    return me.result(st, fr, t, a[0] - a[1])


@intrinsic('integer_min', 'integer_max')
def i_minmax(me, st, fr, t, i, vi, a):
    le = st.le(a[0] - a[1])
    return me.result(st, fr, t, a[0] if le == (i['name'] == 'integer_min') else a[1])


@intrinsic('saturating_add')
def i_satadd(me, st, fr, t, i, vi, a):
    ty = dty(me, st, fr, t)
    r, over = me.fit(st, a[0] + a[1], ty)
    if over:
        x = me.T(ty)
        r = Lin((1 << (x['bits'] if x['k'] == 'uint' else x['bits'] - 1)) - 1)
    return me.result(st, fr, t, r)


@intrinsic('read_via_copy', 'volatile_load')
def i_read(me, st, fr, t, i, vi, a):
    return me.result(st, fr, t, at(me, st, a[0]))


@intrinsic('write_via_move', 'volatile_store')
def i_write(me, st, fr, t, i, vi, a):
    put(me, st, a[0], a[1])
    return unit(me, st, fr, t)


@intrinsic('transmute', 'transmute_unchecked')
def i_transmute(me, st, fr, t, i, vi, a):
    ty = dty(me, st, fr, t)
    return me.result(st, fr, t, me.cast(st, 'Transmute', a[0], ty, me.opty(fr, t[2][0])))


@intrinsic('ptr_metadata')
def i_meta(me, st, fr, t, i, vi, a):
    return me.result(st, fr, t, me.unop(st, 'PtrMetadata', a[0], dty(me, st, fr, t)))


# ------------------------------------------------------------------ iterator methods: std's specialised bodies replaced by plain ones (models/)
ITER_METHODS = {'fold': 'fold', 'for_each': 'for_each', 'sum': 'sum', 'count': 'count', 'any': 'any', 'all': 'all', 'find': 'find', 'position': 'position',
                'last': 'last', 'nth': 'nth', 'try_for_each': None, 'try_fold': None, 'collect': None}


def iter_method(me, st, fr, t, i, vi, a):
    """interpret models/<method> with the same type arguments instead of std's body"""
    if i['krate'] not in ('core', 'alloc', 'std', 'smallvec', 'rand') and i['kind'] != 'unresolved':
        return NotImplemented
    n = vi['name']
    ta = [x for x in vi['args'] if isinstance(x, int)]
    name = ITER_METHODS[n]
    if n == 'sum':
        if me.T(dty(me, st, fr, t))['k'] != 'uint':
            return NotImplemented
    if n == 'collect':
        c = me.T(ta[1])
        if not (c['k'] == 'adt' and c['raw'] == 'alloc::vec::Vec'):
            return NotImplemented
        name = 'collect_vec'
    if n in ('try_for_each', 'try_fold'):
        r = me.T(ta[-1])
        if not (r['k'] == 'adt' and r['raw'] == 'core::result::Result'):
            return NotImplemented
        f = ta[1] if n == 'try_for_each' else ta[2]
        e = r['args'][1]
        name = n
        ta = [ta[0], e, f] if n == 'try_for_each' else [ta[0], ta[1], e, f]
    m = me.srv.model(name, fr.inst, ta)
    if not isinstance(m, int):
        return NotImplemented
    me.push(st, m, a, me.destof(st, fr, t), t[4])
    return True


for _n in ITER_METHODS:
    MODELS[('Iterator', _n)] = iter_method


def array_map(me, st, fr, t, i, vi, a):
    ta = [x for x in vi['args'] if isinstance(x, int)]
    v = me.asvec(a[0])
    if any(c[0] != 'e' for c in v.ch) or v.w or len(ta) < 3:
        return NotImplemented
    m = me.srv.model('array_map', fr.inst, [ta[0], ta[-2], ta[-1]])
    if not isinstance(m, int):
        return NotImplemented
    ty = dty(me, st, fr, t)

    def done(me, st, r):
        return me.result(st, st.frames[-1], t, Agg(ty, 0, [c[1] for c in me.asvec(r).ch]))
    me.push(st, m, [VecV(None, v.ch), a[1]], None, None, cont=done)
    return True


MODELS[('m', '[T; N]', 'map')] = array_map


def vec_extend(me, st, fr, t, i, vi, a):
    """Vec::extend: push every item"""
    ta = [x for x in vi['args'] if isinstance(x, int)]
    if len(ta) < 3:
        return NotImplemented
    c = me.T(ta[0])
    if c['k'] != 'adt' or c['raw'] != 'alloc::vec::Vec':
        return NotImplemented
    if me.T(ta[1])['k'] == 'ref':
        return NotImplemented
    m = me.srv.model('extend_vec', fr.inst, [ta[1], ta[1], ta[2]])
    if not isinstance(m, int):
        return NotImplemented
    me.push(st, m, a, me.destof(st, fr, t), t[4])
    return True


MODELS[('Extend', 'extend')] = vec_extend


@model('core::num::nonzero::NonZero::<T>::new', 'core::num::NonZero::<T>::new', 'std::num::NonZero::<T>::new')
def nonzero_new(me, st, fr, t, i, vi, a):
    ty = dty(me, st, fr, t)
    if not isinstance(a[0], Lin):
        return NotImplemented
    if st.eqint(a[0], ZERO):
        return me.result(st, fr, t, none(me, ty))
    return me.result(st, fr, t, some(me, ty, Agg(me.fields(ty, 1)[0], 0, [a[0]])))


@model('core::num::nonzero::NonZero::<T>::get', 'core::num::NonZero::<T>::get', 'std::num::NonZero::<T>::get')
def nonzero_get(me, st, fr, t, i, vi, a):
    x = a[0]
    if isinstance(x, Agg) and len(x.f) == 1 and isinstance(x.f[0], Lin):
        return me.result(st, fr, t, x.f[0])
    return NotImplemented


def part_next(name):
    def f(me, st, fr, t, i, vi, a):
        r = me.toref(a[0])
        if r is None:
            return NotImplemented
        w = me.read(st, r.cell, r.path)
        if not isinstance(w, Agg) or len(w.f) != 2:
            return NotImplemented
        n = w.f[1]
        while isinstance(n, Agg) and len(n.f) == 1:
            n = n.f[0]
        ta = [x for x in me.T(w.ty)['args'] if isinstance(x, int)]
        if not isinstance(n, Lin) or not ta:
            return NotImplemented
        m = me.srv.model(name, fr.inst, ta[-1:])
        if not isinstance(m, int):
            return NotImplemented
        me.push(st, m, [Ref(r.cell, tuple(r.path) + (('f', 0, 0),)), n], me.destof(st, fr, t), t[4])
        return True
    return f


for _p in ('core', 'std'):
    MODELS[('Iterator', 'next', _p + '::slice::Windows')] = part_next('windows_next')
    MODELS[('Iterator', 'next', _p + '::slice::Chunks')] = part_next('chunks_next')
