"""C20: effects. A call graph over everything the triangulation can reach in the crate (generic code included; calls through the
crate's own traits reach every implementation in the crate), its external callees classified, statics and shared state inspected."""
from core import *

# (prefix of the def path, what it does)
DENY = [
    ('std::fs', 'touches files'), ('std::net', 'uses the network'), ('std::env', 'reads the environment'), ('std::process', 'controls processes'),
    ('std::thread', 'uses threads or thread-local state'), ('std::time', 'reads a clock'), ('std::os', 'talks to the operating system'),
    ('std::sys', 'talks to the operating system'), ('std::io::stdio', 'performs input or output'), ('std::io::copy', 'performs input or output'),
    ('std::io::pipe', 'performs input or output'), ('std::io::Stdin', 'performs input or output'), ('std::panicking::set_hook', 'changes global state'),
    ('std::panicking::take_hook', 'changes global state'), ('std::alloc::set_alloc_error_hook', 'changes global state'), ('std::backtrace', 'inspects the process'),
    ('libc', 'calls the system directly'), ('core::arch', 'executes raw instructions'), ('core::core_arch', 'executes raw instructions'),
    ('backtrace::symbolize', 'reads debug information of the process'),
]
OPEN = ['std::io', 'std::sync::mpsc']
BACKTRACE_OK = ('new_unresolved',)
TRUSTED_CRATES = ('core', 'alloc', 'std', 'rand', 'rand_core', 'smallvec', 'num_traits', 'zot', 'ordered_float', 'backtrace', 'hashbrown')
SHARED_BAD = ('Cell', 'RefCell', 'UnsafeCell', 'SyncUnsafeCell', 'OnceCell', 'LazyCell', 'Mutex', 'RwLock', 'OnceLock', 'LazyLock', 'Rc', 'Once', 'Condvar', 'ReentrantLock')


def under(raw, p):
    return raw == p or raw.startswith(p + '::')


class Graph(object):
    def __init__(self, srv, krate='triangulate'):
        self.srv, self.krate = srv, krate
        self.via = {}
        self.sites = []
        self.statics = []
        self.bodies = 0
        self.odd = []
        self.consts = set()

    def entries(self):
        for r in self.srv.roots():
            if r['kind'] not in ('assocfn', 'fn', 'closure', 'ctor'):
                continue
            raw = r['raw']
            if '::tests::' in raw or '::debug::' in raw:
                continue
            tr = (r.get('trait') or '').split('<')[0]
            if tr in ('std::fmt::Debug', 'std::fmt::Display', 'std::error::Error', 'core::fmt::Debug', 'core::fmt::Display', 'core::error::Error') or 'IdxDisplay' in tr:
                continue
            if r['kind'] in ('assocfn', 'fn') and (r.get('trait') or r.get('pub')):
                yield r

    def run(self):
        todo = []
        for r in self.entries():
            if r['inst'] not in self.via:
                self.via[r['inst']] = None
                todo.append(r['inst'])
        while todo:
            n = todo.pop()
            b = self.srv.body(n)
            if b is None:
                continue
            self.bodies += 1
            self.scan(n, b, todo)

    def reach(self, n, frm, span, todo):
        if n not in self.via:
            self.via[n] = (frm, span)
            todo.append(n)

    def consts_of(self, x):
        """constant operands inside a statement or terminator"""
        if isinstance(x, list):
            if len(x) == 2 and x[0] == 'k' and isinstance(x[1], dict):
                yield x[1]
            else:
                for y in x:
                    for z in self.consts_of(y):
                        yield z

    def scan(self, n, b, todo):
        srv = self.srv
        mutcast = None
        rawwrite = None
        for blk in b['blocks']:
            for s in blk['s']:
                for c in self.consts_of(s):
                    self.const(n, c, s[3] if len(s) > 3 else None, todo)
                if s[0] == '=' and s[2][0] == 'tls':
                    self.statics.append((n, s[2][1], 'a thread-local', s[3]))
                if s[0] == '=' and s[2][0] == 'cast':
                    self.cast(n, b, s)
                    src, dst = self.casttypes(n, b, s)
                    if src and dst and src['k'] == 'ptr' and dst['k'] == 'ptr' and not src['mut'] and dst['mut']:
                        mutcast = s[3]
                    if src and dst and src['k'] == 'ref' and not src['mut'] and dst['k'] in ('ref', 'ptr') and dst['mut']:
                        mutcast = s[3]
                if s[0] == '=' and any(p[0] == '*' for p in s[1][1]):
                    t = srv.type(b['locals'][s[1][0]], n)
                    if t['k'] == 'ptr' and t['mut']:
                        rawwrite = s[3]
            t = blk['t']
            for c in self.consts_of(t):
                self.const(n, c, t[-1], todo)
            if t[0] == 'call' and t[1][0] == 'fn':
                self.call(n, t[1][1], t[1][2], t[-1], todo)
                cal = srv.inst(t[1][1])
                if cal['name'] in ('write', 'replace', 'swap', 'write_unaligned', 'write_volatile') and under(cal['raw'], 'core::ptr'):
                    rawwrite = t[-1]
            if t[0] == '?':
                self.odd.append((n, t[1][:80]))
        if mutcast and rawwrite:
            self.sites.append((n, mutcast, 'writes through a pointer made from a shared reference', 'shared-write'))

    def casttypes(self, n, b, s):
        op = s[2][2]
        if op[0] in ('c', 'm'):
            ty = b['locals'][op[1][0]]
            if op[1][1]:
                if op[1][1][-1][0] == 'f':
                    ty = op[1][1][-1][2]
                else:
                    return None, None
            return self.srv.type(ty, n), self.srv.type(s[2][3], n)
        return None, None

    def cast(self, n, b, s):
        pass

    def const(self, n, c, span, todo):
        k = c.get('k')
        if k == 'static':
            t = self.srv.type(c['ty'], n)
            if t['k'] in ('ref', 'ptr'):
                e = self.srv.type(t['elem'], n)
                if t['k'] == 'ptr' and t.get('mut'):
                    self.statics.append((n, c.get('path'), 'a mutable global', span))
                elif not e['freeze']:
                    self.statics.append((n, c.get('path'), 'a global with interior mutability', span))
        elif k in ('fnptr', 'constbody') and 'inst' in c:
            self.reach(c['inst'], n, span, todo)
        elif k == 'promoted' and 'inst' in c:
            self.reach(c['inst'], n, span, todo)
        t = self.srv.type(c['ty'], n)
        if t['k'] == 'fndef':
            self.call(n, t['inst'], t['inst'], span, todo)
        elif t['k'] == 'closure':
            self.reach(t['inst'], n, span, todo)

    def call(self, n, callee, via, span, todo):
        srv = self.srv
        i = srv.inst(callee)
        v = srv.inst(via) if via is not None else i
        for x in ([i, v] if v is not i else [i]):
            raw = x['raw']
            for p, what in DENY:
                if under(raw, p):
                    self.sites.append((n, span, '%s: %s' % (what, x['path']), p))
                    return
            if x['krate'] == 'backtrace' and x['name'] not in BACKTRACE_OK and x['kind'] != 'unresolved' and not (x['trait'] or '').endswith(('Clone', 'Drop')):
                self.sites.append((n, span, 'inspects the process: %s' % x['path'], 'backtrace'))
                return
            for p in OPEN:
                if under(raw, p):
                    self.odd.append((n, x['path']))
        if i['krate'] not in TRUSTED_CRATES and i['krate'] != self.krate:
            self.odd.append((n, 'external crate %s' % i['krate']))
        # type arguments: closures and functions handed to external code are entered
        for a in i['args']:
            if isinstance(a, int):
                ty = srv.type(a, n)
                if ty['k'] in ('closure', 'fndef'):
                    self.reach(ty['inst'], n, span, todo)
        if i['krate'] == self.krate and i['kind'] != 'unresolved':
            self.reach(callee, n, span, todo)
        elif i['kind'] == 'drop_glue':
            pass

    def path(self, n):
        out = []
        while n is not None and len(out) < 30:
            i = self.srv.inst(n)
            out.append(i['path'])
            v = self.via.get(n)
            n = v[0] if v else None
        return list(reversed(out))


def shared_state(srv, ctx, tid, inst, where, seen, depth=0):
    """interior mutability or unshareable parts in the type of a value that several threads may use at once"""
    t = srv.type(tid, inst)
    key = t['s']
    if key in seen or depth > 30:
        return
    seen.add(key)
    ctx.count('types inspected')
    k = t['k']
    if k == 'adt':
        name = t['path'].split('::')[-1]
        if t['unsafe_cell'] or (t['krate'] in ('core', 'alloc', 'std') and (name in SHARED_BAD or name.startswith('Atomic'))):
            ctx.bad('state/%s' % where, '%s holds %s: triangulating could change it, or it cannot be shared between threads' % (where, t['s']))
            return
        ctx.ok()
        if t['krate'] in ('core', 'alloc', 'std'):
            for a in t['args']:
                if isinstance(a, int):
                    shared_state(srv, ctx, a, inst, where, seen, depth + 1)
        else:
            for v in t['variants']:
                for f, ft in v['fields']:
                    shared_state(srv, ctx, ft, inst, '%s.%s' % (where, f), seen, depth + 1)
            if not t['variants'] or t['phantom']:
                for a in t['args']:
                    if isinstance(a, int):
                        shared_state(srv, ctx, a, inst, where, seen, depth + 1)
    elif k == 'ptr':
        ctx.bad('state/%s' % where, '%s holds a raw pointer (%s): it cannot be shared between threads' % (where, t['s']))
    elif k == 'ref':
        if t['mut']:
            ctx.bad('state/%s' % where, '%s holds a mutable reference (%s)' % (where, t['s']))
        else:
            shared_state(srv, ctx, t['elem'], inst, where, seen, depth + 1)
    elif k in ('array', 'slice'):
        shared_state(srv, ctx, t['elem'], inst, where, seen, depth + 1)
    elif k in ('tuple', 'closure'):
        for f in t['fields']:
            shared_state(srv, ctx, f, inst, where, seen, depth + 1)
    elif k == 'dyn':
        ctx.open('%s holds %s, which may keep state' % (where, t['s']))


def check(ctx, srv):
    g = Graph(srv)
    g.run()
    ctx.count('function bodies', g.bodies)
    for n in g.via:
        i = srv.inst(n)
        ctx.functions.add(i['full'])
    ctx.ok(g.bodies)
    for n, span, what, key in g.sites:
        i = srv.inst(n)
        ctx.bad('effect/%s/%s' % (i['path'], key), '%s %s' % (i['path'], what), span, g.path(n))
    for n, path, what, span in g.statics:
        i = srv.inst(n)
        ctx.bad('global/%s' % path, '%s uses %s, %s: state is kept between calls' % (i['path'], path, what), span, g.path(n))
    for n, what in g.odd:
        ctx.open('%s: %s' % (srv.inst(n)['path'], what))
    # the receiver of the calls
    want = [('Trapezoidation', 'triangulate'), ('PolygonList', 'triangulate'), ('PolygonList', 'trapezoidize'), ('Polygon', 'triangulate'), ('Polygon', 'trapezoidize')]
    found = set()
    for r in srv.roots():
        if r['kind'] != 'assocfn':
            continue
        owner = (r.get('selfty') or '').split('<')[0].split('::')[-1] if r.get('impl') else (r.get('trait') or '').split('::')[-1]
        if (owner, r['name']) not in want:
            continue
        b = srv.body(r['inst'])
        if b is None or b['args'] < 1:
            continue
        t = srv.type(b['locals'][1], r['inst'])
        found.add((owner, r['name']))
        if t['k'] == 'ref' and not t['mut']:
            ctx.ok()
        else:
            ctx.bad('receiver/%s::%s' % (owner, r['name']), '%s::%s takes %s, not a shared reference' % (owner, r['name'], t['s']), r['span'])
        if owner == 'Trapezoidation':
            shared_state(srv, ctx, t.get('elem', b['locals'][1]), r['inst'], 'Trapezoidation', set())
    for w in want:
        if w not in found:
            ctx.open('%s::%s not found' % w)
    for it in srv.items():
        if it['kind'].startswith('Impl') and it.get('unsafe') and (it.get('trait') or '').split('::')[-1] in ('Send', 'Sync'):
            ctx.open('%s for %s is declared by hand' % (it['trait'], it['selfty']))
