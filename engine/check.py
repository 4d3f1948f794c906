#!/usr/bin/env python3
"""check.py <property id> : decide one property from /repo's current source, write evidence, print VIOLATION lines."""
import json, os, resource, sys, time, traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build
from core import Undecided

VERIF = build.VERIF


class Ctx(object):
    def __init__(self, prop, tier):
        self.prop, self.tier = prop, tier
        self.t0 = time.time()
        self.servers = {}
        self.obligations = 0
        self.discharged = 0
        self.violations = []
        self.undecided = []
        self.functions = set()
        self.counts = {}
        self.samples = []
        self.rules = []
        self.assumptions = []
        self.trusted = []

    def server(self, crate='harness', config='rel'):
        k = (crate, config)
        if k not in self.servers:
            self.servers[k] = build.Server(crate, config)
        return self.servers[k]

    def configs(self):
        return ['rel', 'dbg'] if self.tier == 'thorough' else ['rel']

    def left(self):
        return (600 if self.tier == 'quick' else 850) - (time.time() - self.t0)

    def count(self, name, n=1):
        self.counts[name] = self.counts.get(name, 0) + n

    def ok(self, n=1):
        self.obligations += n
        self.discharged += n

    def open(self, what):
        self.obligations += 1
        if what not in self.undecided:
            self.undecided.append(what)

    def bad(self, key, what, span=None, trace=None):
        self.obligations += 1
        for v in self.violations:
            if v['key'] == key:
                return
        self.violations.append(dict(key=key, what=what, span=span, trace=trace or []))

    def absorb(self, me, ok, label=''):
        """bring in the outcome of an abstract run: ok obligations proved"""
        self.ok(ok)
        for i in me.functions:
            x = me.inst(i)
            self.functions.add(x['full'])
        self.count('abstract paths', me.paths)
        self.count('joins', me.joins)
        self.count('steps', me.steps)
        for u in me.undecided:
            self.open('%s: %s' % (label, u))

    def sample(self, s):
        if len(self.samples) < 12:
            self.samples.append(s)


def known_findings():
    f = os.path.join(VERIF, 'known-findings.txt')
    out = []
    if os.path.exists(f):
        for line in open(f):
            line = line.strip()
            if line.startswith('known: '):
                out.append(line[len('known: '):])
    return out


def main():
    prop = sys.argv[1]
    resource.setrlimit(resource.RLIMIT_AS, (12 << 30, resource.getrlimit(resource.RLIMIT_AS)[1]))
    tier = os.environ.get('VERIF_TIER', 'quick')
    if len(sys.argv) > 2:
        tier = sys.argv[2]
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    ctx = Ctx(prop, tier)
    import props
    try:
        props.PROPS[prop](ctx)
    except (Undecided, build.BuildError) as e:
        if isinstance(e, build.BuildError):
            # not a program: nothing to decide (a change that does not compile is outside the property)
            print('ERROR: %s' % e)
            sys.exit(2)
        ctx.open('analysis stopped: %s' % e)
    except Exception as e:
        traceback.print_exc()
        ctx.open('analysis stopped: internal error %r' % (e,))
    for s in ctx.servers.values():
        s.close()
    known = known_findings()
    shown = []
    for v in ctx.violations:
        tag = 'property=%s key=%s' % (prop, v['key'])
        if any(k.startswith(tag) for k in known):
            print('KNOWN-FINDING: property=%s %s' % (prop, v['what']))
        else:
            shown.append(v)
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    cov = dict(explanation=' | '.join(ctx.rules), obligations=ctx.obligations, discharged=ctx.discharged,
               undecided=ctx.undecided[:40], functions_analysed=len(ctx.functions), functions=sorted(ctx.functions)[:150],
               samples=ctx.samples, trusted_base=ctx.trusted, **{k.replace(' ', '_'): v for k, v in ctx.counts.items()})
    ev = dict(property=prop, tier=tier, seed=seed, level='other', coverage=cov, assumptions=ctx.assumptions,
              wall_s=round(time.time() - ctx.t0, 2), violations=len(shown))
    with open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    print('%s: %d obligations, %d discharged, %d undecided, %d functions, %.1fs' % (
        prop, ctx.obligations, ctx.discharged, len(ctx.undecided), len(ctx.functions), time.time() - ctx.t0))
    for u in ctx.undecided[:10]:
        print('  undecided: %s' % u[:600])
    if shown:
        rp = os.path.join(VERIF, 'evidence', prop + '.violation.json')
        with open(rp, 'w') as f:
            json.dump(shown, f, indent=1, default=str)
        for v in shown:
            print('VIOLATION property=%s replay=%s' % (prop, rp))
            sp = v['span']
            print('  %s%s' % (v['what'][:1500], ' [%s:%s]' % (sp[0], sp[1]) if sp else ''))
            for s in v['trace'][-20:]:
                print('    after: %s' % (s,))
        sys.exit(1)
    sys.exit(0)


if __name__ == '__main__':
    if os.environ.get('PYTHONHASHSEED') != os.environ.get('VERIF_HASHSEED', '0'):
        # same exploration order on every run
        os.environ['PYTHONHASHSEED'] = os.environ.get('VERIF_HASHSEED', '0')
        os.execv(sys.executable, [sys.executable] + sys.argv)
    main()
