"""The registry: property id -> deciding function."""
from common import *
import outputs

PROPS = {}


def prop(*ids):
    def d(f):
        for i in ids:
            PROPS[i] = (lambda ctx, i=i: f(ctx, i))
        return f
    return d


RULE_AI = ('abstract interpretation of the type-checked MIR (trace partitioning on branches, symbolic-term and linear-integer domains, '
           'joins by anti-unification to a fixpoint at every loop); ')
TRUST = ['rustc front end (MIR construction, trait resolution)', 'engine/models.py transfer functions for std containers',
         'contracts of the opaque traits (a container appends/truncates as documented, Clone copies)']


def out_formats(ctx, prop, names, rule):
    ctx.rules.append(RULE_AI + rule)
    ctx.trusted = TRUST
    for cfg in ctx.configs():
        srv = ctx.server('harness', cfg)
        for n in names:
            proved = run_output(ctx, srv, n, prop, {})
            if not proved:
                run_output(ctx, srv, n, prop, dict(delay=4))


def run_output(ctx, srv, n, prop, kw):
    o = outputs.Output(srv, n, (prop,), deadline=time.time() + ctx.left() / 3, **kw)
    me = o.go()
    good = sum(c[0] for c in o.checked.values())
    vio = [v for v in me.violations if prop in v['prop']]
    clean = not vio and not me.proof_failed and not me.undecided and good > 0
    if clean or kw:
        ctx.absorb(me, good, n)
        for v in vio:
            ctx.bad('%s/%s' % (n, v['what'].split(' holds ')[0][:80]), v['what'], v['span'], v['trace'])
        for v in me.proof_failed:
            ctx.open(v['what'])
        ctx.sample(dict(client=n, checked={k: c[0] for k, c in o.checked.items()}, paths=me.paths, fixpoint_joins=me.joins))
        if not good and not vio:
            ctx.open('%s: no check point reached' % n)
    return clean


@prop('C01')
def c01(ctx, prop):
    out_formats(ctx, prop, ['indexed_list', 'deindexed_list'],
                'for an arbitrary sequence of builder steps on each list format, the container after build equals its earlier contents followed by the expansion of the fans')


@prop('C02')
def c02(ctx, prop):
    out_formats(ctx, prop, ['indexed_fans', 'deindexed_fans'],
                'for an arbitrary sequence of builder steps on each fan format, the container after build equals its earlier contents followed by all fans')


@prop('C03')
def c03(ctx, prop):
    out_formats(ctx, prop, ['delimited_fans'],
                'for an arbitrary sequence of builder steps, the container after build equals the delimited sequence; a step fails iff one of its indices equals the delimiter')


@prop('C04')
def c04(ctx, prop):
    out_formats(ctx, prop, ['deindexed_list', 'deindexed_fans'],
                'every stored element is a copy of get_vertex(list, index) for the index reported at that place')


@prop('C05')
def c05(ctx, prop):
    out_formats(ctx, prop, list(outputs.FORMATS),
                'whenever a step fails or an error ends the run, the container equals its initial contents; on build the initial contents come first')


@prop('C06')
def c06(ctx, prop):
    import containers
    ctx.rules.append(RULE_AI + 'one-step transition check of every operation of every container type from an arbitrary earlier content')
    ctx.trusted = TRUST
    for cfg in ctx.configs():
        containers.check(ctx, ctx.server('harness', cfg))


@prop('C11')
def c11(ctx, prop):
    import adapters
    ctx.rules.append(RULE_AI + 'the adapter driven by an arbitrary sequence of steps around an opaque format: every step reaches it exactly once, unchanged, and its '
                     'result comes back unchanged; associated constants evaluated for both declarations')
    ctx.trusted = TRUST
    for cfg in ctx.configs():
        adapters.check(ctx, ctx.server('harness', cfg))


@prop('C17')
def c17(ctx, prop):
    import order
    ctx.rules.append(RULE_AI + 'every outcome of the comparison functions, the side test and the point-location step is compared with the specified one: '
                     'proved from the order facts of the path (polynomial normal forms), refuted only by values satisfying those facts')
    ctx.trusted = TRUST[:2] + ['coordinates behave as exact ordered numbers (rounding is outside the property)']
    for cfg in ctx.configs():
        order.check(ctx, ctx.server('triangulate', cfg))


@prop('C07', 'C08', 'C15', 'C18')
def control(ctx, prop):
    import sweep, fans
    ctx.rules.append(RULE_AI + 'the whole triangulation call with an arbitrary format, whose steps succeed or fail at will, and data of any value: builder lifecycle, '
                     'pending error and open regions are tracked through every path to a fixpoint')
    ctx.trusted = TRUST[:2] + ['data-only helper functions of the crate return (any value or error)']
    for cfg in ctx.configs():
        srv = ctx.server('triangulate', cfg)
        sweep.check(ctx, srv, prop)
        if prop == 'C18':
            fans.degenerate(ctx, srv)


@prop('C09', 'C10')
def pieces(ctx, prop):
    import fans
    ctx.rules.append(RULE_AI + 'a monotone piece of n vertices with any coordinates, the side test an uninterpreted predicate, both windings: every fan handed over on every '
                     'path, all passes over the piece covered by a fixpoint for each n')
    ctx.trusted = TRUST[:2] + ['the side test (C17)']
    for cfg in ctx.configs():
        fans.check(ctx, ctx.server('triangulate', cfg), prop, 9 if ctx.tier == "quick" else 10)


@prop('C20')
def c20(ctx, prop):
    import effects
    ctx.rules.append('effect analysis: call graph over the type-checked MIR of everything triangulation can reach (all implementations of the crate\'s traits, closures and '
                     'function values included); external callees classified, globals and thread-locals reported, and the type of a trapezoidation searched for shared mutable state')
    ctx.trusted = ['rustc front end (trait resolution)', 'the classification of std and dependency functions in engine/effects.py',
                   'dependencies rand, smallvec, num-traits, zot do what they document; rand\'s thread-local generator is exempt', 'caller-supplied code (vertices, polygon lists, formats) is outside']
    for cfg in ctx.configs():
        effects.check(ctx, ctx.server('triangulate', cfg))


@prop('C21')
def c21(ctx, prop):
    import splits
    ctx.rules.append(RULE_AI + 'one vertex or one edge entered into every local situation of a consistent subdivision: the regions on its way, the side on which each vertex is passed '
                     'and the edges already joined to it; the tables afterwards are compared with the specified split, record by record')
    ctx.trusted = TRUST[:2] + ['the side test and the point location (C17)', 'a vertex passed by an edge has an edge already (C16: both ends are entered together with their edge)',
                               'an edge only meets regions of a consistent subdivision in general position (it touches no other edge; the documented precondition)']
    splits.check(ctx, ctx.server('triangulate', 'rel'))


@prop('C13')
def c13(ctx, prop):
    import lists
    ctx.rules.append(RULE_AI + 'a client enumerating the provided polygon types with any contents: each item produced is compared with the next position due; counts and lookups '
                     'as functions of the contents')
    ctx.trusted = TRUST[:2] + ['Deref of a container answers the same slice every time']
    for cfg in ctx.configs():
        lists.check13(ctx, ctx.server('harness', cfg))


@prop('C12')
def c12(ctx, prop):
    import lists
    ctx.rules.append(RULE_AI + 'IndexWith around an arbitrary polygon list, for every provided index shape (vectors of 0..4 components, 0..8 thorough): every item produced must be '
                     'the due item with each component the Ok payload of TryInto::try_into of that component; nothing comes out on a path where a conversion failed')
    ctx.trusted = TRUST[:2] + ['std conversions between integer types (TryInto) as documented']
    for cfg in ctx.configs():
        lists.check12(ctx, ctx.server('harness', cfg))


@prop('C16')
def c16(ctx, prop):
    import edges
    ctx.rules.append(RULE_AI + 'trapezoidize on polygons of fixed size: every order the shuffle can produce and every outcome of comparing neighbours; '
                     'the pushes onto the vertex and segment tables are compared with the edges of the polygons; trapezoids and query nodes are not tracked')
    ctx.trusted = TRUST[:2] + ['a path that creates an internal error does not end in success (C08)']
    for cfg in ctx.configs():
        edges.check(ctx, ctx.server('harness', cfg), [(3,), (3, 3), (4,)])


@prop('C14')
def c14(ctx, prop):
    import bounds
    ctx.rules.append(RULE_AI + 'trapezoidize on any sequence of vertices and boundaries, the work on one polygon taken as a whole: every list of bounded length is compared with its '
                     'polygons vertex by vertex; the counts and the size error for lists of any length by a fixpoint')
    ctx.trusted = TRUST[:2] + ['the work on one polygon terminates']
    for cfg in ctx.configs():
        bounds.check(ctx, ctx.server('harness', cfg), 7 if ctx.tier == 'quick' else 10)


@prop('C19')
def c19(ctx, prop):
    import unchecked
    ctx.rules.append('every unsafe operation is enumerated from the type-checked bodies; pointer casts by a layout rule (identical or transparent wrapper); raw dereferences by the origin of the '
                     'pointer; unchecked positions by abstract interpretation of the whole of trapezoidize with the lengths of the tables and every position made from a number; any other unsafe operation is reported')
    ctx.trusted = TRUST[:2] + ['tables shorter than usize::MAX', 'an Idx<T> in memory comes from the crate (its module is private)', 'dependencies are sound', 'code under the _debugging feature is excluded by configuration']
    for cfg in ctx.configs():
        unchecked.check(ctx, ctx.server('triangulate', cfg), ctx.server('harness', cfg))
