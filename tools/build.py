"""Build the engine, the harness MIR and the native replayer from the current sources."""
import hashlib, os, subprocess, sys, glob, shutil, fcntl

V = '/verif'
B = V + '/build'
TARGET = 'x86_64-unknown-linux-gnu'
REPO_CRATES = ['halo-factory', 'halo-pair', 'halo-router', 'halo-token', 'haloswap', 'bignumber']


class BuildError(Exception):
    pass


def files(root, exts, skip=()):
    out = []
    for d, ds, fs in os.walk(root):
        ds[:] = sorted(x for x in ds if x not in ('target', '.git', 'build', 'evidence', 'seeded') and os.path.join(d, x) not in skip)
        out += [os.path.join(d, f) for f in sorted(fs) if f.endswith(exts)]
    return out


def digest(paths):
    h = hashlib.sha256()
    for p in paths:
        h.update(p.encode() + b'\0')
        with open(p, 'rb') as f:
            h.update(f.read())
        h.update(b'\0')
    return h.hexdigest()


def stale(name, h):
    p = f'{B}/{name}.stamp'
    return not (os.path.exists(p) and open(p).read() == h)


def stamp(name, h):
    with open(f'{B}/{name}.stamp', 'w') as f:
        f.write(h)


def run(cmd, cwd, env, what):
    r = subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        sys.stdout.write(r.stdout[-6000:])
        raise BuildError(f'{what} does not build')
    return r.stdout


def drop_fingerprints(target, crates):
    for c in crates:
        for pat in (f'{target}/**/.fingerprint/{c}-*',):
            for p in glob.glob(pat, recursive=True):
                shutil.rmtree(p, ignore_errors=True)


def build(verbose=False):
    os.makedirs(B, exist_ok=True)
    lock = open(B + '/lock', 'w')
    fcntl.flock(lock, fcntl.LOCK_EX)
    env = dict(os.environ)
    for k in ('RUSTFLAGS', 'CARGO_TARGET_DIR', 'RUSTC_WRAPPER', 'CARGO_BUILD_TARGET', 'RUSTUP_TOOLCHAIN', 'CARGO_ENCODED_RUSTFLAGS'):
        env.pop(k, None)
    env['CARGO_NET_OFFLINE'] = 'true'

    # the engine
    h = digest(files(V + '/engine', ('.rs', '.toml', '.lock', '.sh')))
    exe = V + '/engine/target/release/mirsym'
    if stale('engine', h) or not os.path.exists(exe):
        drop_fingerprints(V + '/engine/target', ['mirsym'])
        run(['cargo', '+nightly', 'build', '--release', '--offline'], V + '/engine', env, 'the engine')
        stamp('engine', h)

    # what is analysed: MIR of the repository's crates and of everything they call
    h = digest(files('/repo', ('.rs', '.toml', '.lock')) + files(V + '/harness', ('.rs', '.toml', '.lock')) + [V + '/engine/src/big.rs', V + '/engine/wrap.sh'])
    if stale('mir', h) or not os.path.exists(B + '/args'):
        drop_fingerprints(B + '/mir', REPO_CRATES + ['harness'])
        e = dict(env, MIRSYM_ARGS=B + '/args', RUSTC_WRAPPER=V + '/engine/wrap.sh', CARGO_TARGET_DIR=B + '/mir',
                 RUSTFLAGS='-Zalways-encode-mir --sysroot /root/.cache/miri -Coverflow-checks=on -Cdebug-assertions=off')
        run(['cargo', '+nightly', 'check', '--offline', '--lib', '--target', TARGET], V + '/harness', e, 'the repository (MIR)')
        stamp('mir', h)
    if stale('native', h) or not os.path.exists(B + '/native/release/replay'):
        drop_fingerprints(B + '/native', REPO_CRATES + ['harness'])
        e = dict(env, CARGO_TARGET_DIR=B + '/native')
        run(['cargo', 'build', '--offline', '--release', '--bin', 'replay'], V + '/harness', e, 'the repository (native)')
        stamp('native', h)
    fcntl.flock(lock, fcntl.LOCK_UN)
    return h


if __name__ == '__main__':
    try:
        print(build()[:16])
    except BuildError as e:
        print('ERROR', e)
        sys.exit(2)
