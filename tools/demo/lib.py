"""Small world for the demonstrations: accounts of the rewards program, its instructions, native runs through h/ (real code)."""
import hashlib, json, os, subprocess, sys, tempfile, shutil
DAY = 86400
PROGRAM = bytes.fromhex('9841').ljust(32, b'\x07'); SYS = bytes(32)
SPL = bytes([6,221,246,225,215,101,161,147,217,203,225,70,206,235,121,172,28,180,133,237,95,91,55,145,58,140,245,133,126,255,0,169])
RENT = bytes([6,167,213,23,25,44,92,81,33,140,201,76,61,74,241,127,88,218,238,8,155,161,253,68,227,219,217,138,0,0,0,0])
POOL = dict(deposit_authority=(0,32), distribute_authority=(32,32), fill_authority=(64,32), mint=(96,32), index=(128,16), total=(144,8), ends=(152,8), avail=(160,8), bump=(168,1), type=(169,1))
MINE = dict(pool=(0,32), owner=(32,32), mint=(64,32), index=(96,16), share=(112,8), unclaimed=(120,8), sfo=(128,8), bump=(136,1), type=(137,1))
FLEX, M3, M6, Y1 = 1, 2, 3, 4
def k(name): return hashlib.sha256(name.encode()).digest()
_P = 2**255 - 19; _D = -121665 * pow(121666, _P-2, _P) % _P
def on_curve(b):
    y = (int.from_bytes(b, 'little') & (2**255 - 1)) % _P
    x2 = (y*y - 1) * pow(_D*y*y + 1, _P-2, _P) % _P
    return x2 == 0 or pow(x2, (_P-1)//2, _P) == 1
def pda(*seeds):
    for b in range(255, -1, -1):
        h = hashlib.sha256(b''.join(seeds) + bytes([b]) + PROGRAM + b'ProgramDerivedAddress').digest()
        if not on_curve(h): return h, b
def acc(key, owner=SYS, len=0, lamports=10**9, signer=False, writable=True, **kw): return dict(key=key, owner=owner, len=len, lamports=lamports, signer=signer, writable=writable, **kw)
def sig(name, **kw): return acc(k(name), signer=True, **kw)
AUTH, FILLER, DIST, MINT = 'auth', 'filler', 'dist', 'mint'
def vault_of(pool='pool', mint=MINT): return pda(b'vault', k(pool), k(mint))
def pool(name='pool', diffs={}, hist={}, **r):
    d = dict(deposit_authority=k(AUTH), distribute_authority=k(DIST), fill_authority=k(FILLER), mint=k(MINT), bump=vault_of(name)[1], type=1, index=max([0, *hist.values()]))
    d.update(r); return acc(k(name), PROGRAM, 64480, rec=d, tab=POOL, pool_diffs=dict(diffs), hist=dict(hist))
def member(owner, pool='pool', diffs={}, **r):
    a, b = pda(b'mining', k(owner), k(pool))
    d = dict(pool=k(pool), owner=k(owner), bump=b, type=2); d.update(r)
    return acc(a, PROGRAM, 1776, rec=d, tab=MINE, mine_diffs=dict(diffs))
def token(key, owner, amount, mint=MINT): return acc(key, SPL, 165, data=k(mint) + k(owner) + amount.to_bytes(8, 'little') + bytes(36) + b'\x01' + bytes(56))
def mint(name=MINT): return acc(k(name), SPL, 82)
def vault(amount, pool='pool', mint=MINT): return token(vault_of(pool, mint)[0], AUTH, amount, mint)
def prog(key): return acc(key, SYS, writable=False)
def u64(x): return x.to_bytes(8, 'little')
def rec(a):
    n = 176 if a['tab'] is POOL else 144; b = bytearray(n)
    for f, v in a['rec'].items():
        o, s = a['tab'][f]; b[o:o+s] = v if isinstance(v, bytes) else v.to_bytes(s, 'little')
    return bytes(b)
def js(a):
    o = dict(key=a['key'].hex(), owner=a['owner'].hex(), lamports=str(a['lamports']), signer=a['signer'], writable=a['writable'], len=a['len'])
    if 'rec' in a: o['patch'] = [[0, rec(a).hex()]]
    if 'data' in a: o['patch'] = [[0, a['data'].hex()]]
    for t in ('pool_diffs', 'mine_diffs', 'hist'):
        if t in a: o[t] = [[str(x), str(y)] for x, y in a[t].items()]
    return o
class Res:
    def __init__(self, r, accs): self.r = r; self.ok = r['result'] == 'ok'; self.log = r['log']; self.accs = accs
    def get(self, a):
        """post state of account a as a dict of fields"""
        i = next(i for i, x in enumerate(self.accs) if x is a or x['key'] == a['key']); o = self.r['accounts'][i]
        b = bytes.fromhex(o['rec']); tab = a.get('tab') or (POOL if o['len'] == 64480 else MINE if o['len'] == 1776 else None)
        d = dict(lamports=int(o['lamports']), owner_program=bytes.fromhex(o['owner']), len=o['len'], zero=o['zero'], raw=b)
        if tab and len(b) < 200: d.update({f: (int.from_bytes(b[x:x+s], 'little') if s != 32 else b[x:x+s]) for f, (x, s) in tab.items()})
        for t in ('diffs', 'hist'):
            if t in o: d[t] = {int(x): int(y) for x, y in o[t]} if o[t] is not None else None
        return d
    def becomes(self, a):
        """account a with the post state, to be used in the next instruction"""
        d = self.get(a); n = dict(a); n['lamports'] = d['lamports']
        if 'tab' in a:
            n['rec'] = {f: d[f] for f in a['tab']}
            if a['tab'] is POOL: n['pool_diffs'] = d['diffs']; n['hist'] = d['hist']
            else: n['mine_diffs'] = d['diffs']
        elif a['len'] == 165: n['data'] = d['raw']
        return n
def build():
    here = os.path.dirname(os.path.abspath(__file__)); t = tempfile.mkdtemp(prefix='demo-')
    shutil.copytree(os.path.join(here, 'h'), t + '/h')
    for l in (t + '/h/Cargo.toml',):
        s = open(l).read().replace('/repo/', os.getcwd() + '/'); open(l, 'w').write(s)
    env = dict(os.environ, CARGO_TARGET_DIR=os.environ.get('DEMO_TARGET') or t + '/t', CARGO_PROFILE_DEV_DEBUG='0', CARGO_INCREMENTAL='0', RUSTUP_TOOLCHAIN='1.78.0', CARGO_NET_OFFLINE='true', RUSTC_WRAPPER='')
    r = subprocess.run(['cargo', 'build', '--offline', '--locked', '-q'], cwd=t + '/h', env=env, capture_output=True, text=True)
    if r.returncode: print(r.stderr[-3000:]); shutil.rmtree(t); sys.exit(77)
    return t, env['CARGO_TARGET_DIR'] + '/debug/verif-replay'
_t = None
def run(ix, accs, now):
    global _t
    if _t is None: _t = build()
    out = []; seen = {}
    for i, a in enumerate(accs):
        if a['key'] in seen and a is accs[seen[a['key']]]: out.append(dict(dup=seen[a['key']]))
        else: seen.setdefault(a['key'], i); out.append(js(a))
    c = dict(now=str(now), program=PROGRAM.hex(), ix=ix.hex(), accounts=out)
    r = subprocess.run([_t[1]], input=json.dumps(c) + '\n', capture_output=True, text=True)
    return Res(json.loads(r.stdout.splitlines()[0]), accs)
ACCS = 'program pool mint vault payer auth rent source member delegate owner dest target old new reward_pool reward_mint deposit_authority token_program system_program mining fill_authority source_token_account delegate_mining mining_owner mining_owner_reward_token_account distribute_authority target_account old_delegate_mining new_delegate_mining'.split()
NUMS = 'rewards ends amount start base additional native weighted date penalty'.split()
def call(c):
    """a constructor of the program crate (fn ctor), an instruction of the generated client (fn client, way) or the views"""
    global _t
    if _t is None: _t = build()
    ps = c.pop('periods', [M3, M3])
    c.setdefault('way', 'cpi builder'); c.setdefault('keys', {x: k('acc ' + x).hex() for x in ACCS})
    c.setdefault('args', {**{x: '77' for x in NUMS}, **{x: k('arg ' + x).hex() for x in ('fill_authority', 'distribute_authority', 'owner', 'delegate', 'new_delegate')}, 'period': ps[0], 'old_period': ps[0], 'new_period': ps[1]})
    r = subprocess.run([_t[1]], input=json.dumps(c) + '\n', capture_output=True, text=True)
    return json.loads(r.stdout.splitlines()[0])
def done(failed):
    if _t: shutil.rmtree(_t[0])
    for f in failed: print('FAILED:', f)
    print('demo:', 'property violated' if failed else 'property holds'); sys.exit(1 if failed else 0)
# instructions
def deposit(P, M, G, amount, period, owner, delegate, now): return run(b'\x03' + u64(amount) + bytes([period]) + k(owner) + k(delegate), [P, M, sig(AUTH), G], now)
def withdraw(P, M, G, amount, owner, delegate, now): return run(b'\x04' + u64(amount) + k(owner) + k(delegate), [P, M, sig(AUTH), G], now)
def claim(P, M, owner, V, dest, now, auth=AUTH): return run(b'\x05', [P, mint(), V, M, sig(owner), sig(auth), dest, prog(SPL)], now)
def extend(P, M, G, old, new, start, base, add, owner, delegate, now): return run(b'\x06' + bytes([old, new]) + u64(start) + u64(base) + u64(add) + k(owner) + k(delegate), [P, M, sig(AUTH), G], now)
def distribute(P, now, by=DIST): return run(b'\x07', [P, sig(by)], now)
def close(M, owner, target, P, now): return run(b'\x08', [M, sig(owner), target, sig(AUTH), P], now)
def change(P, M, old, new, amount, owner, new_delegate, now): return run(b'\x09' + u64(amount) + k(new_delegate), [P, M, sig(AUTH), sig(owner), old, new], now)
def slash(P, M, owner, native, weighted, date, now): return run(b'\x0a' + k(owner) + u64(native) + u64(weighted) + (b'\x00' if date is None else b'\x01' + u64(date)), [sig(AUTH), P, M], now)
def decrease(P, M, owner, x, now): return run(b'\x0b' + k(owner) + u64(x), [sig(AUTH), P, M], now)
def fill(P, V, source, amount, ends, now, by=FILLER): return run(b'\x01' + u64(amount) + u64(ends), [P, mint(), V, sig(by), source, prog(SPL)], now)
def init_mining(P, owner, now, M=None): return run(b'\x02' + k(owner), [P, M or acc(pda(b'mining', k(owner), P['key'])[0], lamports=0), sig('payer', lamports=10**12), prog(SYS)], now)
def init_pool(P, V, now): return run(b'\x00' + k(FILLER) + k(DIST), [P, mint(), V, sig('payer', lamports=10**12), sig(AUTH), acc(RENT, SYS, 17), prog(SPL), prog(SYS)], now)
