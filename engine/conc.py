"""Native runs of the real program: harness driver, case generator, and the concrete case the specifications are judged on."""
import hashlib, json, os, queue, random, re, subprocess, sys, threading, time
from terms import *
import trees
from trees import TConc
import spec
from spec import *

PROGRAM = bytes.fromhex('9841') .ljust(32, b'\x07')
SYS = bytes(32); SPLB = SPL.to_bytes(32, 'little')
RENT_ID = bytes([6,167,213,23,25,44,92,81,33,140,201,76,61,74,241,127,88,218,238,8,155,161,253,68,227,219,217,138,0,0,0,0])
def rentmin(n): return (128 + n) * 3480 * 2

# ---- program addresses
_P = 2**255 - 19
_D = -121665 * pow(121666, _P-2, _P) % _P
def on_curve(b):
    y = int.from_bytes(b, 'little') & (2**255 - 1)
    y %= _P
    u = (y*y - 1) % _P; v = (_D*y*y + 1) % _P
    x2 = u * pow(v, _P-2, _P) % _P
    if x2 == 0: return True
    return pow(x2, (_P-1)//2, _P) == 1
_cpa = {}
def cpa(seeds, prog=PROGRAM):
    k = (seeds, prog)
    if k not in _cpa:
        h = hashlib.sha256(b''.join(seeds) + prog + b'ProgramDerivedAddress').digest()
        _cpa[k] = None if on_curve(h) else h
    return _cpa[k]
def fpa(seeds, prog=PROGRAM, skip=0):
    for b in range(255, -1, -1):
        h = cpa(seeds + (bytes([b]),), prog)
        if h is not None:
            if not skip: return h, b
            skip -= 1

def k2i(b): return int.from_bytes(b, 'little')
def i2k(i): return i.to_bytes(32, 'little')

# ---- accounts
def acc(key, owner, ln, lamports=10**9, signer=False, writable=True, **k):
    return dict(key=key, owner=owner, len=ln, lamports=lamports, signer=signer, writable=writable, **k)
def rec_bytes(tab, n, r):
    b = bytearray(n)
    for f, (o, s) in tab.items():
        v = r.get(f, 0)
        b[o:o+s] = v if isinstance(v, bytes) else int(v).to_bytes(s, 'little')
    return bytes(b)
def pool_acc(key, r, diffs, hist, owner=PROGRAM):
    return acc(key, owner, POOL_LEN, rec=dict(r), kind='pool', diffs=dict(diffs), hist=dict(hist))
def mine_acc(key, r, diffs, owner=PROGRAM):
    return acc(key, owner, MINE_LEN, rec=dict(r), kind='mine', diffs=dict(diffs))
def token_acc(key, mint, owner, amount, **k):
    return acc(key, SPLB, 165, kind='token', data=mint + owner + amount.to_bytes(8, 'little') + bytes(36) + b'\x01' + bytes(56), **k)
def js_acc(a):
    o = dict(key=a['key'].hex(), owner=a['owner'].hex(), lamports=str(a['lamports']), signer=a['signer'], writable=a['writable'], len=a['len'])
    if a.get('kind') == 'pool':
        o['patch'] = [[0, rec_bytes(POOL, 176, a['rec']).hex()]]
        o['pool_diffs'] = [[str(k), str(v)] for k, v in a['diffs'].items()]; o['hist'] = [[str(k), str(v)] for k, v in a['hist'].items()]
    elif a.get('kind') == 'mine':
        o['patch'] = [[0, rec_bytes(MINE, 144, a['rec']).hex()]]; o['mine_diffs'] = [[str(k), str(v)] for k, v in a['diffs'].items()]
    elif 'data' in a: o['patch'] = [[0, a['data'].hex()]]
    return o
def js_case(c):
    out = []; seen = {}
    for i, a in enumerate(c['accounts']):
        if id(a) in seen: out.append(dict(dup=seen[id(a)]))
        else: seen[id(a)] = i; out.append(js_acc(a))
    return dict(now=str(c['now']), program=PROGRAM.hex(), ix=c['ix'].hex(), accounts=out)

class Native:
    """the replay harness as a line server"""
    def __init__(self, exe): self.exe = exe; self.start()
    def start(self):
        self.p = subprocess.Popen([self.exe], stdin=subprocess.PIPE, stdout=subprocess.PIPE, text=True, bufsize=1<<20); self.q = queue.Queue()
        def rd(f, q):
            for l in f: q.put(l)
            q.put('')
        threading.Thread(target=rd, args=(self.p.stdout, self.q), daemon=True).start()
    def restart(self): self.p.kill(); self.p.wait(); self.start()
    def ask(self, ch, wait):
        """answers, or None when there is none in time"""
        self.p.stdin.write(''.join(json.dumps(c) + '\n' for c in ch)); self.p.stdin.flush()
        out = []
        for _ in ch:
            t0 = time.time()
            while not self.q.empty() or time.time() - t0 < wait:
                try: l = self.q.get(timeout=wait); break
                except queue.Empty: pass
            else: return None
            if not l: raise BrokenPipeError('harness ended')
            out.append(json.loads(l))
        return out
    def run(self, cases):
        out = []
        for i in range(0, len(cases), 4):
            ch = cases[i:i+4]; r = self.ask(ch, 20)
            if r is None:        # one of them does not end
                r = []
                for c in ch:
                    self.restart(); x = self.ask([c], 5)
                    r.append(x[0] if x else dict(result='hang', accounts=[], log=[]))
                self.restart()
            out += r
        return out
    def close(self):
        try: self.p.stdin.close(); self.p.wait(5)
        except Exception: self.p.kill()

def encode(tag, a):
    b = bytes([tag])
    for n, s in ARGS[tag]:
        v = a[n]; b += v if isinstance(v, bytes) else int(v).to_bytes(s, 'little')
    if tag == SLASH and a['has_date']: b += int(a['date']).to_bytes(8, 'little')
    return b

# ---- the judged case
class ConcCase:
    concrete = True
    def __init__(self, c, r):
        """c: generated case, r: harness answer (result ok)"""
        self.c, self.r = c, r
        self.tag = c['tag']; self.now = c['now']; self.prog = k2i(PROGRAM)
        self.accs = c['accounts']
        self.args = {n: (k2i(v) if isinstance(v, bytes) else v) for n, v in c['args'].items()}
        self.args.setdefault('date', 0)
        self.roles = ROLES[self.tag]
        self.ixlen = len(c['ix'])
        self._post = {}
    def nslots(self): return len(self.accs)
    def slot(self, i):
        a = self.accs[i]
        return dict(key=k2i(a['key']), owner=k2i(a['owner']), signer=a['signer'], writable=a['writable'], len=a['len'])
    def role_slot(self, role): return self.slot(self.roles[role])
    def key(self, role): return k2i(self.accs[self.roles[role]]['key'])
    def owner(self, role): return k2i(self.accs[self.roles[role]]['owner'])
    def length(self, role): return self.accs[self.roles[role]]['len']
    def other(self, role): return self.key(role) != self.key('member')
    def roles_of(self, kind):
        return [x for x in (['pool'] if kind == 'pool' else ['member', 'delegate', 'old', 'new']) if x in self.roles and (x in ('pool', 'member') or self.other(x))]
    def has(self, role):
        a = self.accs[self.roles[role]]
        return a.get('kind') == ('pool' if role == 'pool' else 'mine')
    def pre(self, role):
        a = self.accs[self.roles[role]]
        pool = role == 'pool'
        tab = POOL if pool else MINE
        r = {f: 0 for f in tab}
        if 'rec' in a:
            b = rec_bytes(tab, 176 if pool else 144, a['rec'])
            r = {f: k2i(b[o:o+s]) for f, (o, s) in tab.items()}
        r['diffs'] = TConc(a.get('diffs', {}), 365 if pool else 50)
        if pool: r['hist'] = TConc(a.get('hist', {}), 1095)
        return Rec(r)
    def post(self, role):
        if role in self._post: return self._post[role]
        o = self.r['accounts'][self.roles[role]]
        pool = role == 'pool'; tab = POOL if pool else MINE
        if o.get('bad') or o.get('leaked') or o['len'] != (POOL_LEN if pool else MINE_LEN): return None
        b = bytes.fromhex(o['rec'])
        r = {f: k2i(b[x:x+s]) for f, (x, s) in tab.items()}
        def t(e, cap): return TConc({int(k): int(v) for k, v in (e or [])}, cap)
        r['diffs'] = t(o['diffs'], 365 if pool else 50); r['init_diffs'] = o['diffs'] is not None
        if pool: r['hist'] = t(o['hist'], 1095); r['init_hist'] = o['hist'] is not None
        self._post[role] = Rec(r)
        return self._post[role]
    def wiped(self, role): return self.r['accounts'][self.roles[role]]['zero']
    def post_owner(self, role): return k2i(bytes.fromhex(self.r['accounts'][self.roles[role]]['owner']))
    def lam_pre(self, i): return self.accs[i]['lamports']
    def lam_post(self, i): return int(self.r['accounts'][i]['lamports'])
    def same_data(self, i):
        """account i kept its data"""
        a, o = self.accs[i], self.r['accounts'][i]
        if a.get('kind') in ('pool', 'mine'):
            pool = a['kind'] == 'pool'
            if o.get('bad') or o['len'] != a['len']: return False
            return bytes.fromhex(o['rec']) == rec_bytes(POOL if pool else MINE, 176 if pool else 144, a['rec']) and {int(k): int(v) for k, v in (o['diffs'] or [])} == a['diffs'] and (not pool or {int(k): int(v) for k, v in (o['hist'] or [])} == a['hist'])
        return bytes.fromhex(o['rec']) == a.get('data', bytes(a['len']))
    def token_owner(self, role): return k2i(self.accs[self.roles[role]]['data'][32:64])
    def pda(self, *ch):
        """ch: (size, value) chunks"""
        h = cpa(tuple(v.to_bytes(n, 'little') for n, v in ch))
        return -1 if h is None else k2i(h)
    def rent(self, n): return rentmin(n)
    def cpis(self):
        out = []
        for e in self.r['log']:
            if 'cpi' not in e: continue
            p = bytes.fromhex(e['cpi']); d = bytes.fromhex(e['data']); ms = [k2i(bytes.fromhex(m[0])) for m in e['metas']]
            sg = [k2i(bytes.fromhex(s)) for s in e['signers']]
            kind, a = 'other', {}
            if p == SYS and d[:4] == bytes(4): kind, a = 'create_account', dict(src=ms[0], to=ms[1], lamports=k2i(d[4:12]), space=k2i(d[12:20]), owner=k2i(d[20:52]))
            elif p == SPLB and d[0] == 3: kind, a = 'transfer', dict(program=k2i(p), src=ms[0], to=ms[1], authority=ms[2], amount=k2i(d[1:9]))
            elif p == SPLB and d[0] == 1: kind, a = 'init_account', dict(program=k2i(p), account=ms[0], mint=ms[1], owner=ms[2])
            out.append((kind, a, sg))
        return out
    def ret(self):
        x = [e['ret'] for e in self.r['log'] if 'ret' in e]
        return None if not x else (len(x[-1])//2, k2i(bytes.fromhex(x[-1])))
    def keys(self, *ts):
        """keys at which two maps are compared"""
        D = day(self.now); s = {D, D+DAY, 0}
        for t in ts: s |= set(getattr(t, 'keys', []))
        return sorted(s | {k+1 for k in s} | {k-1 for k in s if k})
    def days(self):
        D = day(self.now); s = {D, D + DAY*1000}
        for role in self.roles_of('pool') + self.roles_of('mine'):
            for R in (self.pre(role), self.post(role)):
                if R: s |= set(R.diffs.keys)
        return sorted({max(k, D) for k in s} | {max(k-1, D) for k in s})
    def holds(self, hyp): return bool(hyp)

# ---- generator
KEYS = {}
def named(n):
    if n not in KEYS: KEYS[n] = hashlib.sha256(n.encode()).digest()
    return KEYS[n]
def pick(r, *xs): return r.choice(xs)

class Gen:
    def __init__(self, seed, lits=(), hints=()): self.r = random.Random(seed); self.lits = list(lits); self.hints = list(hints)
    def num(self, hi=10**9):
        r = self.r
        if self.lits and r.random() < .08: return max(0, min(U64, r.choice(self.lits) + r.choice([0, 0, 1, -1])))
        return r.choice([0, 1, 2, 3, 7, 10, r.randrange(100), r.randrange(10**6), r.randrange(hi+1)])
    def days_keys(self, D, n, due, fut):
        """n day keys around D"""
        r = self.r; ks = set()
        for _ in range(n):
            x = r.random()
            if x < due: k = D - DAY*r.choice([0, 0, 1, 1, 2, 3, r.randrange(0, 60)])
            else: k = D + DAY*r.choice([1, 2, 5, 5, 90, 180, 365, r.randrange(1, 400)])
            if k >= 0: ks.add(k)
        return ks
    def crowd(self, n):
        """n different day keys: all due, all to come, or mixed"""
        r = self.r; p = r.choice([0, .5, 1, 1])
        past = r.sample(range(0, max(n, r.choice([n, 400])) + 1), n); fut = r.sample(range(1, max(n, r.choice([n, 400])) + 2), n)
        return {max(0, self.D - DAY*a) if r.random() < p else self.D + DAY*b for a, b in zip(past, fut)}
    def base(self, mode):
        r = self.r
        d = r.choice([20000, 19999, r.randrange(1500, 25000)])
        D = d*DAY
        now = D + r.choice([0, 0, 1, 43200, 86399, r.randrange(86400)])
        self.D, self.now = D, now
        scale = r.choice([1, 1, 1, 10**3, 10**6, 10**9])
        if mode == 'extreme': scale = r.choice([2**40, 2**50, 2**60])
        self.scale = scale
        # index history
        n = r.choice([0, 1, 2, 3, 5, 9])
        if r.random() < .05: n = r.choice([1095, 1094, 1095, 1094, 33, 130, 300, 700])
        hist = {}; v = 0
        ds = sorted(r.sample(range(1, 60 if n < 50 else 1400), n))
        if n and r.random() < .5: ds[0] = 0
        if len(set(ds)) < n: ds = list(range(n))
        for x in sorted(set(ds), reverse=True):
            v += r.choice([0, 1, P16, P16*r.randrange(1, 50), r.randrange(1, 10**17), r.randrange(1, P16)])
            hist[D - x*DAY] = v
        self.hist = hist; self.v = v
    def member(self, key, owner, pool, bump, sfo0=False, mode=''):
        r = self.r; D = self.D
        n = r.choice([0, 1, 1, 2, 3, 6])
        if r.random() < (.3 if mode == 'full' else .03): n = r.choice([49, 50])
        if n >= 49:
            ks = {D + DAY*(i+1) for i in range(400) if i+1 not in (5, 90, 180, 365) or r.random() < .5}
            ks = set(r.sample(sorted(ks), n))
        elif r.random() < .06: ks = self.crowd(r.choice([9, 17, 33, 40, 48, 50]))
        else: ks = self.days_keys(D, n, .5, .5)
        diffs = {k: self.num(self.scale*100) for k in ks}
        share = sum(diffs.values()) + r.choice([0, 1, self.num(), self.num(self.scale*1000)])
        c = trees.TConc(self.hist, 1095)
        idx = r.choice([0, self.v, c.idx(D - DAY*r.randrange(0, 60) + 1), c.idx(D - DAY*r.randrange(0, 10) + 1), c.idx(D)])
        rec = dict(pool=pool, owner=owner, mint=bytes(32), index=idx, share=share, unclaimed=r.choice([0, 0, self.num()]), sfo=0 if sfo0 else r.choice([0, self.num(), self.num(self.scale*100)]), bump=bump, type=2)
        if r.random() < .1: rec['mint'] = named('xmint')
        return mine_acc(key, rec, diffs)
    def case(self, tag, mode=None):
        r = self.r
        mode = mode or r.choice(['normal']*6 + ['adv']*3 + ['extreme', 'full'])
        self.base(mode)
        D, now = self.D, self.now
        poolk = named(r.choice(['pool', 'pool', 'pool2'])); mint = named('mint')
        own = named(r.choice(['ownerA', 'ownerB'])); own2 = named('ownerC'); own3 = named('ownerD')
        auth, dist, filla = named('depauth'), named('distauth'), named('fillauth')
        if r.random() < .1: dist = auth
        vault, vb = fpa((b'vault', poolk, mint))
        def mk(o, **k):
            key, b = fpa((b'mining', o, poolk), skip=1 if r.random() < .05 else 0)
            return self.member(key, o, poolk, b, mode=mode, **k)
        M = mk(own, sfo0=(tag == CLOSE and r.random() < .7))
        G, G2 = mk(own2), mk(own3)
        # pool schedule covers the members' one
        ks = self.days_keys(D, r.choice([0, 1, 2, 4, 8]), .4, .6) if r.random() < .95 else self.crowd(r.choice([17, 33, 65, 130, 257, 300]))
        pd = {k: self.num(self.scale*100) for k in ks}
        if mode == 'full' and r.random() < .6:
            cand = [D + DAY*i for i in range(1, 420) if i not in (5, 90, 180, 365) or r.random() < .3]
            for k in r.sample(cand, 365 - len(pd) - r.choice([0, 0, 1, 3])): pd.setdefault(k, self.num(100))
            while len(pd) > 365: pd.pop(r.choice(sorted(pd)))
        for A in (M, G):
            for k, v in A['diffs'].items():
                if (k > D or r.random() < .5) and (k in pd or len(pd) < 365): pd[k] = pd.get(k, 0) + v
        weight = sum(A['rec']['share'] + A['rec']['sfo'] for A in (M, G, G2))
        total = sum(pd.values()) + weight + self.num()
        if r.random() < .06: total = r.choice([0, sum(pd.values()), weight, sum(v for k, v in pd.items() if k <= D)])
        ends = max(0, D + DAY*r.choice([0, 0, 1, 2, 3, 10, 100, -1, -5])) + (r.choice([1, 100]) if r.random() < .05 else 0)
        if r.random() < .1: ends = 0
        P = pool_acc(poolk, dict(deposit_authority=auth, distribute_authority=dist, fill_authority=filla, mint=mint, index=self.v, total=min(total, U64), ends=ends,
            avail=r.choice([0, 1, self.num(), self.num(10**12), 1000*P16//10**6]), bump=vb, type=1), pd, self.hist)
        if mode == 'extreme':
            for A in (M, G, G2): 
                A['rec']['share'] = min(U64, A['rec']['share']); A['rec']['sfo'] = min(U64, A['rec']['sfo']); A['diffs'] = {k: min(v, U64) for k, v in A['diffs'].items()}
            P['diffs'] = {k: min(v, U64) for k, v in P['diffs'].items()}
            if r.random() < .3: P['rec']['total'] = U64 - self.num(100)
            if r.random() < .3: M['rec']['unclaimed'] = U64 - self.num(100)
            if r.random() < .3: P['rec']['avail'] = U64 - self.num(100)
        S = lambda k, **kw: acc(k, SYS, 0, signer=True, **kw)
        A = S(auth)
        a = {}
        share = M['rec']['share']
        def amt(*xs): return min(U64, max(0, r.choice([0, 1, self.num(), self.num(self.scale)] + [x for x in xs for _ in (0, 1)])))
        due = sum(v for k, v in M['diffs'].items() if k <= D)
        live = max(0, share - due)
        if tag == INIT_POOL:
            P2 = acc(poolk, PROGRAM, POOL_LEN if r.random() < .9 else POOL_LEN + r.choice([-1, 1, 100]))
            if r.random() < .15: P2 = P
            elif r.random() < .3 and P2['len'] == POOL_LEN:
                P2.update(kind='pool', rec=dict(total=5, deposit_authority=own, type=r.choice([0, 2, 3])), diffs=dict(list(pd.items())[:5]), hist=dict(list(self.hist.items())[:3]))
            V = acc(vault, SYS, 0, lamports=0)
            accs = [P2, acc(mint, SPLB, 82), V, S(named('payer'), lamports=10**12), A, acc(RENT_ID, named('sysvar'), 17), acc(SPLB, named('loader'), 36), acc(SYS, named('loader'), 14)]
            a = dict(fill_authority=filla, distribute_authority=dist)
        elif tag == FILL:
            a = dict(rewards=amt(10**6), ends=max(0, r.choice([D, D + DAY - 1, D + DAY*3 + 5, D - 1, now, ends, ends + 1, ends + DAY, ends + 2*DAY + 7, U64 if mode == 'extreme' else D])))
            accs = [P, acc(mint, SPLB, 82), token_acc(vault, mint, auth, self.num()), S(filla), token_acc(named('src'), mint, filla, r.choice([a['rewards'], U64 >> 1])), acc(SPLB, named('loader'), 36)]
        elif tag == INIT_MINING:
            o = named('ownerN'); key, b = fpa((b'mining', o, poolk))
            accs = [P, acc(key, SYS, 0, lamports=0), S(named('payer'), lamports=10**12), acc(SYS, named('loader'), 14)]
            a = dict(owner=o)
        elif tag in (DEPOSIT, WITHDRAW, EXTEND):
            self_d = r.random() < .35
            DG = M if self_d else G
            accs = [P, M, A, DG]
            dk = own if self_d else own2
            if self_d and r.random() < .3: dk = own3
            if tag == DEPOSIT:
                if mode == 'full' and len(pd) >= 365 and r.random() < .5: pass
                a = dict(amount=amt(1000), period=r.choice([1, 2, 3, 4, 4, 0 if r.random() < .2 else 1]), owner=own, delegate=dk)
            elif tag == WITHDRAW:
                a = dict(amount=amt(live, live + 1, min(live, G['rec']['sfo']), G['rec']['sfo']), owner=own, delegate=dk)
            else:
                op = r.choice([1, 2, 3, 4, 4]); start = D - DAY*r.choice([0, 1, 5, 30, 89, 90, 91, 200, 364, 365]) + r.randrange(DAY)
                ex = day(start) + DAY*spec.DAYS[op] if op != 1 else 0
                base = amt(live // max(1, spec.MULT[op]), 10)
                if not self_d and r.random() < .8: G['rec']['sfo'] += base
                if ex > now and r.random() < .9:
                    y = base*(spec.MULT[op]-1)
                    if (ex in M['diffs'] or len(M['diffs']) < 50) and (ex in pd or len(pd) < 365):
                        for T in (M['diffs'], P['diffs']): T[ex] = min(U64, T.get(ex, 0) + y)
                        M['rec']['share'] = min(U64, M['rec']['share'] + y + base); P['rec']['total'] = min(U64, P['rec']['total'] + y + base)
                a = dict(old_period=op, new_period=r.choice([1, 2, 3, 4]), start=max(0, start), base=base, additional=amt(100), owner=own, delegate=dk)
                P['rec']['total'] = min(U64, P['rec']['total'] + base)
        elif tag == CLAIM:
            dest = token_acc(named('dest'), mint, own, self.num())
            accs = [P, acc(mint, SPLB, 82), token_acc(vault, mint, auth, U64 >> 1), M, S(own), A, dest, acc(SPLB, named('loader'), 36)]
        elif tag == DISTRIBUTE: accs = [P, S(dist)]
        elif tag == CLOSE:
            if r.random() < .7: M['rec']['unclaimed'] = 0; M['rec']['index'] = r.choice([self.v, self.v, M['rec']['index']])
            accs = [M, S(own), acc(named('target'), SYS, 0, lamports=self.num()), A, P]
        elif tag == CHANGE:
            x = r.random()
            o, n = (G, G2) if x < .5 else ((M, G2) if x < .75 else (G, M))
            dk = own3 if n is G2 else own
            a = dict(amount=amt(o['rec']['sfo'], o['rec']['sfo'] + 1, 5), new_delegate=dk)
            accs = [P, M, A, S(own), o, n]
        elif tag in (SLASH, DECREASE):
            accs = [A, P, M]
            if tag == DECREASE: a = dict(owner=own, penalty=amt(live, live + 1, sum(M['diffs'].values()), sum(M['diffs'].values()) - due, *M['diffs'].values()))
            else:
                ks = [k for k in M['diffs'] if k in P['diffs']]
                x = amt(live, live//2)
                date = r.choice(ks) + r.choice([0, 1, 86399]) if ks and r.random() < .8 else D + DAY*r.randrange(100)
                y = r.choice([0, 1, M['diffs'].get(day(date), 0), M['diffs'].get(day(date), 0) + 1, P['diffs'].get(day(date), 0) + 1, self.num(100)])
                hd = int(r.random() < .7)
                a = dict(owner=own, native=max(0, x - y) if r.random() < .9 else amt(), weighted=x, has_date=hd)
                a['date'] = date
        if tag not in (INIT_POOL, INIT_MINING) and r.random() < .02: a.update({k: v for k, v in a.items()})
        for q in accs:
            if 'rec' in q:
                for f, v in q['rec'].items():
                    if isinstance(v, int): q['rec'][f] = min(v, 2**128-1 if f == 'index' else U64)
                q['diffs'] = {k: min(v, U64) for k, v in q['diffs'].items()}
        if self.hints and mode != 'adv' and r.random() < .5: now = self.overlay(tag, accs, a, r.choice(self.hints), now)
        if mode == 'adv': accs = self.adverse(tag, accs, a, P, M, G, mint)
        ix = encode(tag, a)
        if r.random() < .01: ix += b'\0'
        return dict(tag=tag, now=now, accounts=accs, args=a, ix=ix, mode=mode)
    def overlay(self, tag, accs, a, h, now):
        """values of a solver model put into a valid case"""
        r = self.r; p = r.choice([.3, .7, 1, 1])
        if h.get('tag') != tag: return now
        on = lambda: r.random() < p
        if 'now' in h and on(): now = h['now']
        for n, v in h.get('args', {}).items():
            if n in a and isinstance(a[n], int) and on(): a[n] = v
        for i, f in h.get('accs', {}).items():
            if int(i) >= len(accs) or 'rec' not in accs[int(i)]: continue
            q = accs[int(i)]
            for n, v in f.get('rec', {}).items():
                if n in q['rec'] and isinstance(q['rec'][n], int) and n not in ('bump', 'type') and on(): q['rec'][n] = v
            for t in ('diffs', 'hist'):
                if t in f and t in q and on():
                    cap = {'diffs': 365 if q['kind'] == 'pool' else 50, 'hist': 1095}[t]
                    if r.random() < .7: q[t].clear()
                    for k, v in f[t]:
                        if len(q[t]) < cap: q[t][k] = v
        return now
    def adverse(self, tag, accs, a, P, M, G, mint):
        r = self.r; accs = list(accs)
        for _ in range(r.choice([1, 1, 2])):
            i = r.randrange(len(accs)); x = accs[i]
            how = r.choice(['signer', 'owner', 'key', 'foreign', 'foreign', 'foreignpool', 'swap', 'dup', 'rec', 'rec', 'mintkey', 'drop'])
            def repl(y):
                for j in range(len(accs)):
                    if accs[j] is x: accs[j] = y
            if how == 'signer':
                ss = [q for q in accs if q['signer']]
                if ss: r.choice(ss)['signer'] = False
            elif how == 'owner': x['owner'] = r.choice([SYS, SPLB, PROGRAM, named('evil')])
            elif how == 'key': repl({**x, 'key': r.choice([named('evil'), named('ownerC'), named('depauth2')])})
            elif how in ('foreign', 'foreignpool'):
                # a member account of another pool, self-consistent
                ms = [q for q in accs if q.get('kind') == 'mine']
                if ms:
                    x = r.choice(ms); p2 = named('poolX')
                    key, b = fpa((b'mining', x['rec']['owner'], p2))
                    y = {**x, 'key': key, 'rec': {**x['rec'], 'pool': p2, 'bump': b}}
                    if how == 'foreign': repl(y)
                    else: y['key'] = x['key']; repl(y)
            elif how == 'swap':
                j = r.randrange(len(accs)); accs[i], accs[j] = accs[j], accs[i]
            elif how == 'dup': accs[i] = accs[r.randrange(len(accs))]
            elif how == 'rec':
                ms = [q for q in accs if q.get('rec')]
                if ms:
                    x = r.choice(ms); f = r.choice(['pool', 'owner', 'bump', 'type'] if x['kind'] == 'mine' else ['deposit_authority', 'distribute_authority', 'fill_authority', 'bump', 'mint', 'type'])
                    x['rec'][f] = r.choice([1, 2, 3, 0]) if f in ('bump', 'type') else named(r.choice(['evil', 'ownerA', 'ownerB', 'ownerC']))
            elif how == 'mintkey':
                for q in accs:
                    if q['key'] == mint: q['key'] = named('mint2')
            elif how == 'drop': accs.pop(r.randrange(len(accs)))
            if not accs: break
        return accs

class Skip(Exception): pass
def _need(self, what):
    """well-formedness the property is conditional on"""
    if what == 'hist' and 'pool' in self.roles and self.has('pool'):
        P = self.pre('pool'); D = day(self.now); ks = P.hist.keys
        if any(k > D or k % DAY for k in ks): raise Skip
        vs = [P.hist.d[k] for k in ks]
        if vs != sorted(vs) or P.index != P.hist.idx(INF): raise Skip
ConcCase.need = _need
ConcCase.fold_lemma = lambda self, T, C, D: []
def _frame(self, role, what): return [(f'{what} unchanged', self.same_data(self.roles[role]))]
ConcCase.frame = _frame
ConcCase.frame_slot = lambda self, i, what: [(f'{what} unchanged', self.same_data(i))]

def judge(pid, case, res, props):
    """failed obligation names of a native run, or None when the run is not judged"""
    c = ConcCase(case, res)
    if pid in ('C29', 'C30'):
        if meets(c) is not None: return None
        return [] if res['result'] == 'ok' else [f"the conditions are met, the instruction {'does not end' if res['result'] == 'hang' else 'fails: ' + res['result'][:80]}"]
    if pid == 'C35': return untruthful(c, res)
    if any(r != 'pool' and r in c.roles and not (0 <= c.roles[r] < len(c.accs)) for r in c.roles): return ['fewer accounts than the instruction has roles']
    bad = []
    try:
        for n, g in props.obligations(pid, c):
            if not g and n not in bad: bad.append(n)
    except Skip: return None
    return bad

# ---- the conditions under which an instruction has to succeed (total.conditions), on a concrete case
ConcCase.nacc = property(lambda s: len(s.accs))
def _derived(self, r, *ch):
    h = cpa(tuple(int(v).to_bytes(n, 'little') for n, v in ch)); return h is not None and self.key(r) == k2i(h)
def _canonical(self, *ch): return fpa(tuple(int(v).to_bytes(n, 'little') for n, v in ch))[1]
def _token(self, r):
    d = self.accs[self.roles[r]].get('data', b''); return len(d) == 165 and d[108] == 1
def _history(self):
    try: self.need('hist'); return True
    except Skip: return False
def _settled(self, r, M, C, D):
    d0 = min([D] + [k - 1 for k in M.diffs.keys]); return 0 <= d0 and M.index <= C.idx(d0 + 1)
def _range(self, M, C, D):
    w0 = M.share + M.sfo; top = C.idx(INF_)
    return M.unclaimed + max(0, top - M.index)*w0//P16 <= U64
INF_ = trees.INF
ConcCase.zeroed = lambda self, r: not any(x in self.accs[self.roles[r]] for x in ('rec', 'data'))
ConcCase.balance = lambda self, r: k2i(self.accs[self.roles[r]]['data'][64:72])
ConcCase.token_mint = lambda self, r: k2i(self.accs[self.roles[r]]['data'][:32])
ConcCase.derived = _derived; ConcCase.canonical = _canonical; ConcCase.token = _token; ConcCase.history = _history; ConcCase.settled = _settled; ConcCase.range_ = _range
ConcCase.distinct = lambda self, xs: len(set(xs)) == len(xs)

def meets(c):
    """first condition a case does not meet, or None"""
    import total
    if len(c.accs) < NSLOTS[c.tag]: return 'enough accounts'
    for r in ('pool', 'member', 'delegate', 'old', 'new'):
        if r in c.roles and not c.has(r) and not (c.tag == INIT_MINING and r == 'member') and not c.tag == INIT_POOL: return f'{r} account'
    for n, g in total.conditions(c):
        if not g: return n
    return None

def refusal(res):
    """published code, or name of the general error, of a refused native run"""
    m = re.match(r'err: Custom\((\d+)\)', res['result'])
    if m: return int(m.group(1))
    m = re.match(r'err: (\w+)', res['result'])
    return m.group(1) if m else None
def untruthful(c, res):
    """a refused run against the meaning of the error it carries; and the error that has to be carried when only one condition is violated"""
    import errors
    k = refusal(res); bad = []
    if k is None or res.get('callee'): return None
    n = 0
    if isinstance(k, int) and k >= len(errors.CODES): bad.append('only published codes')
    g = errors.truths(c).get(k)
    if g is not None:
        try:
            n += 1
            if not g(): bad.append(errors.title(k))
        except (Skip, IndexError, KeyError): pass
    if not bad and c.tag not in (INIT_POOL, INIT_MINING) and len(c.accs) >= NSLOTS[c.tag]:
        others = {r: c.other(r) for r in ('delegate', 'old', 'new') if r in c.roles}
        try: conds = [x for x in __import__('total').conditions(c)]
        except (Skip, IndexError, KeyError, AttributeError): conds = None
        for label, swap, want in errors.violated(c.tag, others) if conds else ():
            if not any(nm in swap for nm, _ in conds): continue
            def held(nm, g):
                if nm in swap: return swap[nm](c, g)
                t = next((x for x in swap if isinstance(x, tuple) and x[0] in nm.replace('stays', 'stay')), None)
                return swap[t](c, g) if t else g
            if not all(held(nm, g) for nm, g in conds): continue
            n += 1; codes = want if isinstance(want, tuple) else (want,)
            if k not in codes: bad.append(f'{label}: refused as ' + ' or '.join(x if isinstance(x, str) else errors.CODES[x][0] for x in codes) + f', not {k}')
    return bad if n else None
