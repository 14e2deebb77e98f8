"""Builds from /repo's working tree: the MIR export (nightly, through driver/main.rs) and the native replay harness."""
import fcntl, hashlib, os, subprocess, sys, time
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
BUILD = os.environ.get('VERIF_BUILD') or os.path.join(VERIF, 'build') + ('' if REPO == '/repo' else '-' + hashlib.sha1(REPO.encode()).hexdigest()[:8])

class BuildError(Exception): pass

def sources(*roots):
    """hash of every source file under the given parts of the repository"""
    h = hashlib.sha256()
    fs = []
    for r in roots:
        if os.path.isfile(r): fs.append(r)
        for d, ds, ns in os.walk(r):
            ds[:] = sorted(x for x in ds if x not in ('target', 'node_modules', '.git'))
            fs += [os.path.join(d, n) for n in ns if n.endswith(('.rs', '.toml', '.lock', '.json', '.txt'))]
    for f in sorted(fs):
        h.update(f.encode() + b'\0'); h.update(open(f, 'rb').read()); h.update(b'\0')
    return h.hexdigest()
def repo_hash(): return sources(*[os.path.join(REPO, x) for x in ('programs', 'clients/rust', 'Cargo.toml', 'Cargo.lock', 'rust-toolchain.toml')])

def sh(cmd, env=None, log=None, timeout=900):
    e = dict(os.environ); e.update(env or {})
    p = subprocess.run(['bash', '-c', cmd], env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
    if log: open(log, 'w').write(p.stdout)
    return p.returncode, p.stdout

class Lock:
    def __init__(self, name): os.makedirs(BUILD, exist_ok=True); self.f = open(os.path.join(BUILD, name + '.lock'), 'w')
    def __enter__(self): fcntl.flock(self.f, fcntl.LOCK_EX); return self
    def __exit__(self, *a): self.f.close()
def stamp(name, h):
    p = os.path.join(BUILD, name + '.stamp')
    return os.path.exists(p) and open(p).read() == h
def set_stamp(name, h): open(os.path.join(BUILD, name + '.stamp'), 'w').write(h)

def driver():
    os.makedirs(BUILD, exist_ok=True)
    exe = os.path.join(BUILD, 'mirdump'); src = os.path.join(VERIF, 'driver', 'main.rs')
    h = hashlib.sha256(open(src, 'rb').read()).hexdigest()
    if stamp('mirdump', h) and os.path.exists(exe): return exe
    rc, out = sh(f'. /opt/vp/env.sh; cd {VERIF}; rustc +nightly -Copt-level=1 {src} -o {exe}')
    if rc: raise BuildError('driver does not build:\n' + out[-3000:])
    set_stamp('mirdump', h)
    return exe

def dump(crate='mplx_rewards', pkg='mplx-rewards', features=''):
    """path of the exported MIR of the crate as it is in the working tree now"""
    with Lock('mir-' + crate):
        exe = driver()
        d = os.path.join(BUILD, 'mir'); os.makedirs(d, exist_ok=True)
        out = os.path.join(d, crate + '.json'); stop = os.path.join(VERIF, 'driver', 'stop.txt')
        h = repo_hash() + sources(stop) + sources(os.path.join(VERIF, 'driver')) + features
        if stamp('mir-' + crate, h) and os.path.exists(out): return out
        if os.path.exists(out): os.remove(out)
        tgt = os.path.join(BUILD, 'mirtgt')
        # the workspace crates are always recompiled
        sh(f'rm -rf {tgt}/debug/build/{pkg} {tgt}/debug/build/mplx-rewards {tgt}/debug/.fingerprint/{pkg}-* {tgt}/debug/.fingerprint/mplx-rewards-*')
        env = dict(RUSTUP_TOOLCHAIN='nightly', CARGO_TARGET_DIR=tgt, CARGO_PROFILE_DEV_DEBUG='0', RUSTC_WORKSPACE_WRAPPER=exe, VERIF_DUMP_CRATE=crate, VERIF_DUMP_DIR=d, VERIF_DUMP_STOP=stop,
            RUSTFLAGS='-Zalways-encode-mir -Zmir-opt-level=0 -Coverflow-checks=on -Cdebug-assertions=off -Awarnings -Zthreads=4', CARGO_INCREMENTAL='0')
        ex = '; '.join(f'export {k}={v!r}' for k, v in env.items())
        rc, txt = sh(f'. /opt/vp/env.sh; cd {REPO}; {ex}; export LD_LIBRARY_PATH=$(rustc +nightly --print sysroot)/lib; cargo check -p {pkg} --lib --offline --locked {features}', log=os.path.join(BUILD, f'mir-{crate}.log'))
        if rc or not os.path.exists(out): raise BuildError(f'export of {crate} failed:\n' + txt[-3000:])
        set_stamp('mir-' + crate, h)
        return out

def replay(client=False):
    """path of the native harness, linked against the working tree (with the generated client if asked)"""
    with Lock('replay'):
        src = os.path.join(VERIF, 'replay')
        tgt = os.path.join(BUILD, 'rptgt'); exe = os.path.join(BUILD, 'verif-replay' + ('-client' if client else ''))
        h = repo_hash() + sources(src)
        if stamp('replay' + str(client), h) and os.path.exists(exe): return exe
        if REPO != '/repo':
            new = os.path.join(BUILD, 'replay'); sh(f'mkdir -p {new} && cp -a {src}/. {new}/ && sed -i "s#/repo/#{REPO}/#" {new}/Cargo.toml'); src = new
        sh(f'rm -rf {tgt}/debug/.fingerprint/mplx-rewards-* {tgt}/debug/.fingerprint/rewards-*')
        rc, txt = sh(f'. /opt/vp/env.sh; cd {src}; export CARGO_PROFILE_DEV_DEBUG=0 CARGO_INCREMENTAL=0 CARGO_TARGET_DIR={tgt}; cargo build --offline --locked' + (' --features client' if client else '') + f' && cp {tgt}/debug/verif-replay {exe}', log=os.path.join(BUILD, 'replay.log'))
        if rc: raise BuildError('native harness does not build:\n' + txt[-3000:])
        set_stamp('replay' + str(client), h)
        return exe
