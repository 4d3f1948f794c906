#!/usr/bin/env python3
"""trymut.py [-j N] MUTS.json [ids...]: apply each change {file, old, new, n?} to a private copy of /repo, run the given
checks of a private copy of /verif against it. Development aid for measuring what the checks see; never part of a check."""
import json, os, shutil, subprocess, sys, threading, queue
a = sys.argv[1:]
J = 4
if a[0] == '-j':
    J = int(a[1])
    a = a[2:]
muts = json.load(open(a[0]))
ids = a[1:]
BASE = '/tmp/trymut.%d' % os.getpid()
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
q = queue.Queue()
out = {}
plock = threading.Lock()


def work(k):
    w = '%s/w%d' % (BASE, k)
    os.makedirs(w)
    repo, ver = w + '/repo', w + '/verif'
    subprocess.run(['git', 'clone', '-q', '--shared', '/repo', repo], check=True)
    if os.path.exists('/repo/Cargo.lock'):
        shutil.copy('/repo/Cargo.lock', repo)
    os.makedirs(ver)
    for d in ('engine', 'driver', 'harness', 'models', 'build', 'known-findings.txt'):
        if os.path.exists(V + '/' + d):
            subprocess.run(['cp', '-a', V + '/' + d, ver], check=True)
    p = ver + '/harness/Cargo.toml'
    s = open(p).read().replace('path = "/repo"', 'path = "%s"' % repo)
    open(p, 'w').write(s)
    while True:
        try:
            n, m = q.get_nowait()
        except queue.Empty:
            return
        line = one(repo, ver, m)
        with plock:
            print(line, flush=True)


def one(repo, ver, m):
    name = m.get('name') or repr(m.get('new'))[:60]
    try:
        if 'patch' in m:
            if subprocess.run(['git', '-C', repo, 'apply', m['patch']]).returncode:
                return '?? does not apply: %s' % name
        else:
            for e in m.get('edits') or [m]:
                f = repo + '/' + e['file']
                s = open(f).read()
                if s.count(e['old']) < 1:
                    return '?? not found: %s: %s' % (name, e['old'])
                parts = s.split(e['old'])
                n = e.get('n', 0)
                open(f, 'w').write(e['old'].join(parts[:n + 1]) + e['new'] + e['old'].join(parts[n + 1:]))
        res = []
        for i in (m.get('ids') or ids):
            env = dict(os.environ, VERIF_REPO=repo)
            p = subprocess.run(['python3', 'engine/check.py', i], capture_output=True, text=True, cwd=ver, env=env)
            ls = p.stdout.splitlines()
            if 'Traceback' in p.stderr:
                print(p.stderr[-2500:])
            v = [l for l in ls if l.startswith('VIOLATION')]
            u = [l for l in ls if 'undecided' in l and l.startswith(i)]
            w = ls[ls.index(v[0]) + 1].strip()[:200] if v else ''
            first = [l.strip()[:300] for l in ls if l.startswith('  undecided')][:1]
            res.append('%s:%s%s %s %s %s' % (i, p.returncode, '(V)' if v else '', w, (u[0] if u else (p.stdout[-600:] + p.stderr[-300:])) if not v else '', first if not v and first else ''))
        return '%-50s %s' % (name, ' | '.join(res))
    finally:
        subprocess.run(['git', '-C', repo, 'checkout', '-q', '--', '.'])


try:
    for n, m in enumerate(muts):
        q.put((n, m))
    ts = [threading.Thread(target=work, args=(k,)) for k in range(min(J, len(muts)))]
    [t.start() for t in ts]
    [t.join() for t in ts]
finally:
    shutil.rmtree(BASE, ignore_errors=True)
