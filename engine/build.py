"""Facts for /repo's current working tree.

Copies /repo to a scratch mirror (outside /repo and /verif, removed afterwards), leaves out the one
dependency that is not available offline, adds the witness crates, and runs `cargo check` with the
fact-dumping compiler driver as workspace wrapper.  The result is kept under /verif/.cache/facts,
keyed by a hash over every source file of /repo and every input of this machinery."""
import fcntl, hashlib, os, re, shutil, subprocess, sys, time
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
CACHE = os.path.join(VERIF, '.cache')
MIRROR = '/tmp/verif-butane-mirror'
TARGET = os.path.join(CACHE, 'target')
DRIVER = os.path.join(VERIF, 'driver/target/release/mirfacts')
CRATES = 'butane_core,butane,butane_cli,butane_codegen,butane_witness'
SKIP = {'.git', 'target', 'node_modules', '__pycache__'}


def walk(root):
    out = []
    for d, ds, fs in os.walk(root):
        ds[:] = sorted(x for x in ds if x not in SKIP)
        for f in sorted(fs):
            p = os.path.join(d, f)
            if f.endswith(('.rs', '.toml', '.lock', '.md', '.json', '.sql')) and os.path.isfile(p):
                out.append(p)
    return out


def env(extra=None):
    e = dict(os.environ)
    e.update(HOME=os.environ.get('HOME', '/root'), LANG='C.UTF-8', RUSTUP_TOOLCHAIN='nightly', CARGO_NET_OFFLINE='true',
             CARGO_TERM_COLOR='never', RUSTC_WRAPPER='', CARGO_INCREMENTAL='0', CARGO_PROFILE_DEV_DEBUG='0')
    e['PATH'] = '/root/.cargo/bin:' + e.get('PATH', '/usr/local/bin:/usr/bin:/bin')
    for k in ('RUSTFLAGS', 'CARGO_TARGET_DIR', 'CARGO_BUILD_RUSTFLAGS'):
        e.pop(k, None)
    e.update(extra or {})
    return e


_sysroot = None


def sysroot():
    global _sysroot
    if not _sysroot:
        _sysroot = subprocess.run(['rustc', '+nightly', '--print', 'sysroot'], env=env(), capture_output=True, text=True,
                                  check=True).stdout.strip()
    return _sysroot


def digest():
    h = hashlib.sha256()
    for root in (REPO, os.path.join(VERIF, 'driver/src'), os.path.join(VERIF, 'models'), os.path.join(VERIF, 'witness')):
        for p in walk(root):
            h.update(os.path.relpath(p, root).encode())
            h.update(hashlib.sha256(open(p, 'rb').read()).digest())
    h.update(open(os.path.join(VERIF, 'driver/Cargo.toml'), 'rb').read())
    h.update(open(__file__, 'rb').read())
    return h.hexdigest()[:24]


class BuildError(Exception):
    pass


def run(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    if r.returncode:
        raise BuildError(' '.join(cmd[:6]) + '\n' + r.stdout[-6000:])
    return r.stdout


def ensure_driver():
    src = [os.path.join(VERIF, 'driver/src/main.rs'), os.path.join(VERIF, 'driver/Cargo.toml')]
    stamp = os.path.join(VERIF, 'driver/target/stamp')
    h = hashlib.sha256(b''.join(open(s, 'rb').read() for s in src)).hexdigest()
    if os.path.exists(DRIVER) and os.path.exists(stamp) and open(stamp).read() == h:
        return
    run(['cargo', '+nightly', 'build', '--release', '--offline'], cwd=os.path.join(VERIF, 'driver'), env=env())
    open(stamp, 'w').write(h)


def sync():
    shutil.rmtree(MIRROR, ignore_errors=True)
    os.makedirs(MIRROR)
    run(['rsync', '-rlp', '--exclude=/.git', '--exclude=/target', '--filter=:- .gitignore', REPO + '/', MIRROR + '/'])
    p = os.path.join(MIRROR, 'butane_cli/Cargo.toml')
    t = open(p).read()
    open(p, 'w').write(re.sub(r"(?m)^clap-markdown *=.*git *=.*\n", "", t))
    p = os.path.join(MIRROR, 'Cargo.lock')
    t = open(p).read()
    t = re.sub(r'(?m)^\[\[package\]\]\nname = "clap-markdown"\n(?:.+\n)*\n?', "", t)
    open(p, 'w').write(re.sub(r'(?m)^ "clap-markdown",\n', "", t))
    w = os.path.join(VERIF, 'witness')
    if os.path.isdir(w):
        shutil.copytree(w, os.path.join(MIRROR, 'verif_witness'), ignore=shutil.ignore_patterns('target'))
        p = os.path.join(MIRROR, 'Cargo.toml')
        t = open(p).read()
        open(p, 'w').write(t.replace('members = [', 'members = [\n  "verif_witness",', 1))


def build(out):
    ensure_driver()
    os.makedirs(out)
    ld = os.path.join(sysroot(), 'lib')
    run([DRIVER, '--crate-name', 'models', '--edition=2021', '--crate-type', 'lib', '--emit=metadata', '--sysroot', sysroot(),
         '-o', os.path.join(out, 'models.rmeta'), os.path.join(VERIF, 'models/lib.rs')],
        env=env({'MIRFACTS_OUT': out, 'MIRFACTS_CRATES': 'models', 'LD_LIBRARY_PATH': ld}))
    os.remove(os.path.join(out, 'models.rmeta'))
    sync()
    cmd = ['cargo', '+nightly', 'check', '--offline', '-p', 'butane', '-p', 'butane_cli', '-p', 'butane_core', '--all-features']
    e = env({'MIRFACTS_OUT': out, 'MIRFACTS_CRATES': CRATES, 'LD_LIBRARY_PATH': ld, 'CARGO_TARGET_DIR': TARGET,
             'RUSTC_WORKSPACE_WRAPPER': DRIVER})
    # workspace members are always rebuilt: their sources are new files in the mirror
    try:
        run(cmd + ['-p', 'butane_witness'], cwd=MIRROR, env=e)
    except BuildError as x:
        # a program using the macros that no longer compiles is a matter of the properties of the macros
        run(cmd, cwd=MIRROR, env=e)
        run(['touch', os.path.join(MIRROR, 'verif_witness/src/lib.rs')])
        open(os.path.join(out, 'witness_error.txt'), 'w').write(str(x))
    # what the macros recorded of the schema of the witness program while it was compiled
    b = os.path.join(MIRROR, 'verif_witness/.butane')
    if os.path.isdir(b):
        shutil.copytree(b, os.path.join(out, 'witness_butane'))


def select(out):
    """A crate built twice (for the host with fewer features, and with all of them): keep the larger program."""
    for f in sorted(os.listdir(out), key=lambda f: os.path.getsize(os.path.join(out, f))):
        m = re.fullmatch(r'(\w+)\.\d+\.json', f)
        if m:
            os.replace(os.path.join(out, f), os.path.join(out, m.group(1) + '.json'))


def ensure_facts(force=False):
    """Directory with the facts of the current tree; raises BuildError when it does not compile."""
    os.makedirs(CACHE, exist_ok=True)
    with open(os.path.join(CACHE, 'lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        d = digest()
        base = os.path.join(CACHE, 'facts')
        out = os.path.join(base, d)
        if os.path.exists(os.path.join(out, 'done')) and not force:
            return out, d, True
        shutil.rmtree(out, ignore_errors=True)
        tmp = out + '.tmp'
        shutil.rmtree(tmp, ignore_errors=True)
        os.makedirs(base, exist_ok=True)
        # keep only a few fact sets
        old = sorted((os.path.join(base, x) for x in os.listdir(base)), key=os.path.getmtime)
        for x in old[:-3]:
            shutil.rmtree(x, ignore_errors=True)
        try:
            build(tmp)
            select(tmp)
            if digest() != d:
                raise BuildError('the sources changed while they were analysed')
        finally:
            shutil.rmtree(MIRROR, ignore_errors=True)
        open(os.path.join(tmp, 'done'), 'w').write(d)
        os.rename(tmp, out)
        return out, d, False


if __name__ == '__main__':
    t = time.time()
    print(ensure_facts('-f' in sys.argv), round(time.time() - t, 1), 's')
