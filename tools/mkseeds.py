"""Writes and validates the planted bugs of /verif/seeded: mkseeds.py [ids...]
Each is a replacement in a scratch copy of /repo; kept only if it builds, the stable tests pass, and its demonstration tells it from the unchanged tree."""
import json, os, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = '/tmp/sc'
R = 'programs/rewards/src/'
SEEDS = {}
def seed(id, prop, needs, breaks, edits, demo): SEEDS[id] = (prop, needs, breaks, edits, demo)
PRE = 'from lib import *\nbad = []\ndef want(c, what):\n    if not c: bad.append(what)\nD = 20000*DAY; NOW = D + 3600; P16 = 10**16\n'
exec(open(os.path.join(V, 'tools', 'seeds.txt')).read())
def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
def prepare():
    if not os.path.exists(S): sh(f'cp -a /repo {S}')
    sh(f'git -C {S} checkout -q -f -- . ; git -C {S} fetch -q /repo HEAD; git -C {S} reset -q --hard FETCH_HEAD')
def build(): return sh(f'cd {S} && . /opt/vp/env.sh && cd {S} && cargo test --workspace --features rewards/test-sbf --no-run --offline --locked -q')
def tests():
    c = f'. /opt/vp/env.sh && cd {S} && cargo test --workspace --features rewards/test-sbf --lib --bins --test create --no-fail-fast --offline --locked -q -- --test-threads 8'
    return sh(c)
def main(ids):
    prepare(); os.environ['DEMO_TARGET'] = '/tmp/demot'
    for id in ids:
        prop, needs, breaks, edits, demo = SEEDS[id]
        d = f'{V}/seeded/{id}'
        shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
        shutil.copytree(f'{V}/tools/demo/h', d + '/h'); shutil.copy(f'{V}/tools/demo/lib.py', d); shutil.copy(f'{V}/tools/demo/demo.sh', d)
        open(d + '/demo.py', 'w').write(PRE + demo.strip('\n') + '\ndone(bad)\n')
        json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(d + '/meta.json', 'w'), indent=1)
        sh(f'git -C {S} checkout -q -f -- .')
        r0 = sh(f'cd {S} && bash {d}/demo.sh')
        ok = True; msg = ''
        for f, old, new in edits:
            p = f'{S}/{f}'; s = open(p).read()
            if s.count(old) != 1: ok = False; msg = f'{f}: {s.count(old)} matches of {old[:60]!r}'; break
            open(p, 'w').write(s.replace(old, new))
        if not ok: print(id, 'EDIT', msg); shutil.rmtree(d); continue
        open(d + '/patch.diff', 'w').write(sh(f'git -C {S} diff').stdout)
        b = build()
        if b.returncode: print(id, 'BUILD', b.stderr[-1500:]); shutil.rmtree(d); continue
        t = tests(); n = t.stdout.count('test result: ok'), 'FAILED' in t.stdout
        r1 = sh(f'cd {S} && bash {d}/demo.sh')
        good = r0.returncode == 0 and r1.returncode == 1 and t.returncode == 0 and not n[1]
        print(id, 'KEPT' if good else 'REJECTED', 'clean', r0.returncode, 'patched', r1.returncode, 'tests', t.returncode, n, (r0.stdout[-700:] + r0.stderr[-700:] + '|' + r1.stdout[-300:] + r1.stderr[-500:] + (t.stdout[-600:] if t.returncode else '')) if not good else r1.stdout.strip().replace('\n', ' | ')[:200], flush=True)
        if not good: shutil.rmtree(d)
    sh(f'git -C {S} checkout -q -f -- .')
main(sys.argv[1:] or list(SEEDS))
