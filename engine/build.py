"""Builds the driver and the dependency metadata and starts `mirserve` on a crate.

Nothing here runs code of the analysed crate: `cargo check` only type-checks, and mirserve only
answers questions about the type-checked program (MIR bodies, resolved callees, types)."""
import fcntl, json, os, subprocess, sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
BUILD = os.path.join(VERIF, 'build')
_sysroot = None


class BuildError(Exception):
    pass


def env():
    e = dict(os.environ)
    for k in ('RUSTFLAGS', 'CARGO_BUILD_TARGET', 'RUSTC_WRAPPER', 'RUSTC_WORKSPACE_WRAPPER', 'RUSTUP_TOOLCHAIN',
              'CARGO_ENCODED_RUSTFLAGS'):
        e.pop(k, None)
    e['PATH'] = '/root/.cargo/bin:' + e.get('PATH', '')
    e['CARGO_NET_OFFLINE'] = 'true'
    e['CARGO_TERM_COLOR'] = 'never'
    e['CARGO_INCREMENTAL'] = '0'
    return e


def sysroot():
    global _sysroot
    if _sysroot is None:
        _sysroot = subprocess.check_output(['rustc', '+nightly', '--print', 'sysroot'], env=env(), text=True).strip()
    return _sysroot


def lock():
    os.makedirs(BUILD, exist_ok=True)
    f = open(os.path.join(BUILD, '.lock'), 'w')
    fcntl.flock(f, fcntl.LOCK_EX)
    return f


def build_driver():
    e = env()
    e['CARGO_TARGET_DIR'] = os.path.join(BUILD, 'driver')
    p = subprocess.run(['cargo', '+nightly', 'build', '--offline', '--quiet', '--locked'], cwd=os.path.join(VERIF, 'driver'),
                       env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode:
        raise BuildError('driver build failed:\n' + p.stdout[-4000:])
    return os.path.join(BUILD, 'driver', 'debug', 'mirserve')


# name -> (rustc flags, cargo features of the harness)
CONFIGS = {
    'rel': ('-Cdebug-assertions=off -Coverflow-checks=on', []),
    'dbg': ('-Cdebug-assertions=on -Coverflow-checks=on -Zub-checks=no', []),
    'dbgf': ('-Cdebug-assertions=off -Coverflow-checks=on', ['debugging']),
}


def artifacts(config):
    """cargo check of the harness; returns {crate name: (metadata file, package id, features, target)}"""
    flags, feats = CONFIGS[config]
    e = env()
    tgt = os.path.join(BUILD, 'h-' + config)
    e['CARGO_TARGET_DIR'] = tgt
    e['RUSTFLAGS'] = '-Zalways-encode-mir -Zmir-opt-level=0 --cap-lints=allow ' + flags
    cmd = ['cargo', '+nightly', 'check', '--offline', '--locked', '--message-format=json']
    if feats:
        cmd += ['--features', ','.join(feats)]
    p = subprocess.run(cmd, cwd=os.path.join(VERIF, 'harness'), env=e, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
    arts, msgs = {}, []
    for line in p.stdout.splitlines():
        try:
            m = json.loads(line)
        except ValueError:
            continue
        if m.get('reason') == 'compiler-message' and m['message'].get('level') == 'error':
            msgs.append(m['message'].get('rendered', ''))
        if m.get('reason') == 'compiler-artifact' and 'lib' in ''.join(m['target']['kind']):
            f = [x for x in m['filenames'] if x.endswith('.rmeta')]
            if f:
                arts[m['target']['name'].replace('-', '_')] = dict(file=f[0], features=m['features'], target=m['target'], pkg=m['package_id'])
    if p.returncode:
        raise BuildError('type-checking failed:\n' + '\n'.join(msgs)[-6000:] + p.stderr[-2000:])
    return arts, tgt, flags


def repo_deps(arts):
    m = json.loads(subprocess.check_output(['cargo', '+nightly', 'metadata', '--offline', '--locked', '--format-version=1'],
                                           cwd=os.path.join(VERIF, 'harness'), env=env(), text=True, stderr=subprocess.DEVNULL))
    for n in m['resolve']['nodes']:
        if n['id'] == arts['triangulate']['pkg']:
            return [d['name'] for d in n['deps'] if any(k['kind'] is None for k in d['dep_kinds'])]
    raise BuildError('triangulate not found')


def start(crate='harness', config='rel'):
    """crate: 'harness' (the public interface, seen from a client) or 'triangulate' (the crate itself)"""
    l = lock()
    try:
        drv = build_driver()
        arts, tgt, flags = artifacts(config)
        dirs = sorted({os.path.dirname(a['file']) for a in arts.values()})
        cmd = [drv]
        if crate == 'harness':
            cmd += [os.path.join(VERIF, 'harness', 'src', 'lib.rs'), '--crate-name', 'harness', '--edition', '2021',
                    '--extern', 'triangulate=' + arts['triangulate']['file']]
        else:
            t = arts['triangulate']
            cmd += [t['target']['src_path'], '--crate-name', 'triangulate', '--edition', t['target']['edition']]
            for f in t['features']:
                cmd += ['--cfg', 'feature="%s"' % f]
            for d in repo_deps(arts):
                cmd += ['--extern', '%s=%s' % (d, arts[d]['file'])]
        cmd += ['-Zunstable-options', '--extern', 'force:itermodels=' + arts['itermodels']['file']]
        for d in dirs:
            cmd += ['-L', 'dependency=' + d]
        cmd += ['--crate-type', 'lib', '-Zmir-opt-level=0', '-Zalways-encode-mir', '--cap-lints=allow',
                '--out-dir', BUILD, '--sysroot', sysroot()] + flags.split()
        e = env()
        e['LD_LIBRARY_PATH'] = sysroot() + '/lib'
        p = subprocess.Popen(cmd, stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=e, text=True, cwd=REPO)
        first = p.stdout.readline()
        if first.strip() != 'ready':
            err = p.stderr.read()
            raise BuildError('mirserve failed on %s:\n%s' % (crate, err[-6000:]))
        return p
    finally:
        l.close()


class Server:
    def __init__(self, crate='harness', config='rel'):
        self.crate, self.config = crate, config
        self.p = start(crate, config)
        self.cache = {}
        self._roots = None

    def ask(self, q):
        if q in self.cache:
            return self.cache[q]
        self.p.stdin.write(q + '\n')
        self.p.stdin.flush()
        line = self.p.stdout.readline()
        if not line:
            raise BuildError('mirserve died on "%s":\n%s' % (q, self.p.stderr.read()[-3000:]))
        r = json.loads(line)
        self.cache[q] = r
        return r

    def roots(self):
        if self._roots is None:
            self._roots = self.ask('roots')
        return self._roots

    def items(self):
        return self.ask('items')

    def body(self, n):
        return self.ask('body %d' % n)

    def inst(self, n):
        return self.ask('inst %d' % n)

    def type(self, n, inst):
        return self.ask('type %d %d' % (n, inst))

    def model(self, name, inst, args):
        return self.ask('model %s %d %s' % (name, inst, ' '.join(map(str, args))))

    def find(self, pred):
        return [r for r in self.roots() if pred(r)]

    def close(self):
        try:
            self.p.stdin.write('quit\n')
            self.p.stdin.flush()
            self.p.wait(10)
        except Exception:
            self.p.kill()


if __name__ == '__main__':
    build_driver()
    for c in sys.argv[1:] or ['rel']:
        artifacts(c)
    print('built')
