"""Polynomials over opaque coordinates: normal forms of the arithmetic terms the interpreter builds, and what the order facts
of a state say about the sign of a polynomial."""
from fractions import Fraction
from itertools import product
from values import *


class NotPoly(Exception):
    pass


def add(p, q, s=1):
    r = dict(p)
    for m, c in q.items():
        n = r.get(m, 0) + s * c
        if n:
            r[m] = n
        else:
            r.pop(m, None)
    return r


def mul(p, q):
    r = {}
    for m, c in p.items():
        for n, d in q.items():
            k = tuple(sorted(m + n))
            v = r.get(k, 0) + c * d
            if v:
                r[k] = v
            else:
                r.pop(k, None)
    return r


def const(c):
    return {(): Fraction(c)} if c else {}


def atom(k):
    return {(k,): Fraction(1)}


def poly(v):
    """normal form of a value; unknown functions are atoms"""
    if isinstance(v, Lin):
        r = const(v.c)
        for k, c in v.t:
            r = add(r, {(k,): Fraction(c)})
        return r
    if isinstance(v, Agg) and len(v.f) == 1:
        return poly(v.f[0])
    if isinstance(v, Sym):
        return kpoly(v.k)
    raise NotPoly(v)


def kpoly(k):
    key = KEYS[k]
    if key[0] == 'op':
        o, a = key[1], key[2:]
        if o in ('Add', 'AddUnchecked'):
            return add(poly(a[0]), poly(a[1]))
        if o in ('Sub',):
            return add(poly(a[0]), poly(a[1]), -1)
        if o == 'Mul':
            return mul(poly(a[0]), poly(a[1]))
        if o == 'neg':
            return add({}, poly(a[0]), -1)
        if o == 'mul_add':
            return add(mul(poly(a[0]), poly(a[1])), poly(a[2]))
    if key[0] == 'num':
        return const(0 if key[1] == 'zero' else 1)
    if key[0] == 'val':
        return poly(key[1])
    return atom(k)


def evaluate(v, env):
    """value of a term under an assignment of its atoms; KeyError when something is not interpreted"""
    if isinstance(v, Lin):
        return v.c + sum(c * evalk(k, env) for k, c in v.t)
    if isinstance(v, Agg) and len(v.f) == 1:
        return evaluate(v.f[0], env)
    if isinstance(v, Sym):
        return evalk(v.k, env)
    raise KeyError(v)


def evalk(k, env):
    if k in env:
        return env[k]
    key = KEYS[k]
    if key[0] == 'op':
        o = key[1]
        a = [evaluate(x, env) for x in key[2:]]
        if o in ('Add', 'AddUnchecked'):
            return a[0] + a[1]
        if o == 'Sub':
            return a[0] - a[1]
        if o == 'Mul':
            return a[0] * a[1]
        if o == 'neg':
            return -a[0]
        if o == 'mul_add':
            return a[0] * a[1] + a[2]
        if o == 'abs':
            return abs(a[0])
        if o == 'min':
            return min(a)
        if o == 'max':
            return max(a)
        if o == 'abs_sub':
            return max(a[0] - a[1], 0)
        if o == 'signum':
            return (a[0] >= 0) - (a[0] < 0)
        if o == 'Div' and a[1] != 0:
            return Fraction(a[0]) / a[1]
    if key[0] == 'num':
        return 0 if key[1] == 'zero' else 1
    if key[0] == 'val':
        return evaluate(key[1], env)
    raise KeyError(k)


def norm(p):
    """(normalised polynomial as a hashable key, sign) or None for a constant"""
    if not p:
        return None
    items = sorted(p.items())
    lead = items[-1][1] if items[-1][0] else items[-1][1]
    s = 1 if lead > 0 else -1
    return tuple((m, c / abs(lead) * s) for m, c in items), s


FLIP = {'<': '>', '>': '<', '=': '=', 'u': 'u'}
NOT_U = frozenset('<=>')


class Facts(object):
    """sign knowledge about polynomials from the order facts of a state (unordered values are left out)"""

    def __init__(self, st):
        self.pairs = []
        self.known = {}
        self.dead = False
        for (a, b), r in st.od.items():
            r = r & NOT_U
            if not r:
                self.dead = True
                continue
            self.pairs.append((a, b, r))
            try:
                d = add(kpoly(a), kpoly(b), -1)
            except NotPoly:
                continue
            n = norm(d)
            if n is None:
                if '=' not in r:
                    self.dead = True
                continue
            q, s = n
            if all(not m for m, _ in q):  # non-zero constant
                if ('>' if s > 0 else '<') not in r:
                    self.dead = True
                continue
            if s < 0:
                r = frozenset(FLIP[x] for x in r)
            self.known[q] = self.known.get(q, NOT_U) & r
            if not self.known[q]:
                self.dead = True

    def sign(self, p):
        """possible signs of p: subset of '<=>' relative to zero"""
        n = norm(p)
        if n is None:
            return frozenset('=')
        q, s = n
        if all(not m for m, _ in q):
            return frozenset('>' if s > 0 else '<')
        r = self.known.get(q, NOT_U)
        return frozenset(FLIP[x] for x in r) if s < 0 else r

    def holds(self, env):
        """do all facts hold under the assignment? None if some fact cannot be evaluated"""
        ok = True
        for a, b, r in self.pairs:
            try:
                x, y = evalk(a, env), evalk(b, env)
            except KeyError:
                ok = None
                continue
            if ('<' if x < y else '>' if x > y else '=') not in r:
                return False
        return ok


def completions(facts, targets):
    """all sign patterns of the target polynomials the facts allow"""
    sets = [sorted(facts.sign(t)) for t in targets]
    return product(*sets)


def grid(atoms, values=(0, 1, 2, 4)):
    for vs in product(values, repeat=len(atoms)):
        yield dict(zip(atoms, vs))
