"""Bounded native runs of the clients: the JavaScript client (types erased, on a stand-in for umi, engine/js) and the Rust client's decoders
and error tables, on concrete inputs against the tables."""
import json, os, random, subprocess
import spec, conc, build, errors, extra, wirenat
from spec import *
from client import ANAMES, fname
from jsclient import camel, OPTIONAL, FIELDS, TABLE, places, ROOT

class Node(conc.Native):
    def __init__(self):
        self.js = os.path.join(os.path.dirname(os.path.abspath(__file__)), 'js', 'run.js'); self.start()
    def start(self):
        import queue, threading
        self.p = subprocess.Popen(['node', self.js, ROOT()], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, bufsize=1 << 20); self.q = queue.Queue()
        def rd(f, q):
            for l in f: q.put(l)
            q.put('')
        threading.Thread(target=rd, args=(self.p.stdout, self.q), daemon=True).start()

def pid(exe):
    n = conc.Native(exe)
    try: return n.run([dict(fn='id')])[0]['id']
    finally: n.close()
def num(g, z, v): return {'num': v} if v < 2**53 and g.random() < .5 else {'big': str(v)}
def n33(exe, seed, tier, failed):
    g = random.Random(seed); prog = pid(exe); n = Node(); runs = 0
    try:
        for tag in range(12):
            for _ in range(60 if tier == 'quick' else 600):
                A = wirenat.rargs(g, tag); pos = {i: r for r, i in ROLES[tag].items()}
                payer = wirenat.rkey(g); reg = wirenat.rkey(g).hex() if g.random() < .2 else None
                accs = {}; want = []; sg = []
                for i, a in enumerate(ANAMES[tag]):
                    k = wirenat.rkey(g); kind = 'signer' if pos.get(i) in SIGNERS[tag] else g.choice(['key', 'pda', 'signer'])
                    if a in OPTIONAL.get(tag, ()) and g.random() < .5: kind = 'none'; k = payer if a == 'payer' else wirenat.k2b(CONSTS[tag][i])
                    accs[camel(a)] = dict(kind=kind, key=k.hex(), bump=g.randrange(256)); want.append(k)
                    sg.append(kind == 'signer' or kind == 'none' and a == 'payer')
                args = {}
                for x, z in ARGS[tag]:
                    if x == 'has_date': continue
                    args[camel(fname(tag, x))] = {'key': A[x].hex()} if z == 32 else {'num': A[x]} if z == 1 else num(g, z, A[x])
                if tag == SLASH: args[camel(fname(tag, 'date'))] = g.choice([None, {'none': 1}]) if A['date'] is None else g.choice([{'some': str(A['date'])}, num(g, 8, A['date'])])
                q = dict(fn='ix', name=camel(NAMES[tag]), accounts=accs, args=args, payer=payer.hex(), registered={'mplxRewards': reg} if reg else {})
                r = n.run([q])[0]; runs += 1; bad = None
                if 'throws' in r: bad = 'no instruction is built'
                elif r['n'] != 1: bad = 'not one instruction'
                else:
                    bad = wirenat.check(tag, r, reg or prog, want, A)
                    if not bad and len(r['metas']) != NSLOTS[tag]: bad = 'wrong number of accounts'
                    for i in range(NSLOTS[tag]):
                        if not bad and pos.get(i) in SIGNERS[tag] and want[i].hex() not in r['signers']: bad = f'the signer of account {i} is not attached'
                if bad: return dict(kind='JavaScript client', input=q, answer=r, violated=[bad]), dict(runs=runs)
    finally: n.close()
    return None, dict(runs=runs)

def record(which, b, enc):
    P, (d0, dn) = places(which)
    r = {f: enc(b[o:o+z], z) for f, (o, z) in P.items()}
    return r, b[d0:d0+dn]
def n32(exe, seed, tier, failed):
    g = random.Random(seed); runs = 0; n = Node(); e58 = {}
    def data(which):
        rec, full = TABLE[which][1:]
        L = g.choice([full, rec, rec + g.randrange(64)])
        return bytes(g.choice([0, 255, g.randrange(256)]) for _ in range(rec)) + bytes(g.randrange(256) for _ in range(min(L - rec, 100)))
    try:
        def b58(b):
            h = b.hex()
            if h not in e58: e58[h] = n.run([dict(fn='program', payer=h, probe=h)])[0]['key58']
            return e58[h]
        for which in FIELDS:
            C = ''.join(x.capitalize() for x in which.split('_')); rec = TABLE[which][1]
            r = n.run([dict(fn='account', which=C, way='size', payer='00'*32)])[0]
            if r.get('size') != rec: return dict(kind='JavaScript client', input=dict(way='size', which=C), answer=r, violated=['size of the record']), dict(runs=runs)
            for _ in range(60 if tier == 'quick' else 600):
                b = data(which); k = wirenat.rkey(g)
                flds, rest = record(which, b, lambda x, z: b58(x) if z == 32 else int.from_bytes(x, 'little') if z <= 4 else {'big': str(int.from_bytes(x, 'little'))})
                want = {camel(f): v for f, v in flds.items()}; want['data'] = list(rest)
                for way in ('serializer', 'deserialize', 'fetch', 'safeFetch', 'gpa'):
                    q = dict(fn='account', which=C, way=way, data=b.hex(), key=k.hex(), payer='00'*32, exists=True)
                    r = n.run([q])[0]; runs += 1
                    v = r.get('value'); got = dict(v) if isinstance(v, dict) else None
                    if got is not None and way in ('deserialize', 'fetch', 'safeFetch') and got.pop('publicKey', None) != b58(k): got = None
                    if got != want: return dict(kind='JavaScript client', input=q, answer=r, expected=want, violated=[f'{way}: the fields of the record']), dict(runs=runs)
            for way in ('fetch', 'safeFetch'):
                q = dict(fn='account', which=C, way=way, key='11'*32, payer='00'*32, exists=False); r = n.run([q])[0]
                if ('throws' in r) != (way == 'fetch') or 'value' in r and r['value'] is not None: return dict(kind='JavaScript client', input=q, answer=r, violated=[f'{way}: an account that does not exist']), dict(runs=runs)
    finally: n.close()
    n = conc.Native(build.replay(True))
    try:
        for which in FIELDS:
            rec = TABLE[which][1]
            for j in range(200 if tier == 'quick' else 3000):
                b = data(which)
                if j % 4 == 0: b = b[:g.choice([rec - 1, rec, g.randrange(rec + 1)])]
                q = {'fn': 'client account', 'which': which, 'data': b.hex()}; r = n.run([q])[0]; runs += 1
                if len(b) < rec: want = 'refused'
                else: flds, rest = record(which, b, lambda x, z: x.hex() if z == 32 else str(int.from_bytes(x, 'little'))); want = dict(flds, data=rest.hex())
                for way in ('from_bytes', 'try_from'):
                    if r[way] != want: return dict(kind='Rust client', input=q, answer=r, expected=want, violated=[f'{way}: the fields of the record']), dict(runs=runs)
    finally: n.close()
    return None, dict(runs=runs)

def n34(exe, seed, tier, failed):
    prog = pid(exe); runs = 0; N = len(errors.CODES)
    codes = list(range(N + 50)) + [255, 256, 65535, 65536, 2**31 - 1, 2**31, 2**32 - 1]
    wide = codes + [2**32 + i for i in range(N + 2)] + [2**63 - 1, 2**64 - 1, 2**64 - 5, -1, -2, -2**32, -2**63]
    n = conc.Native(exe)
    try:
        r = n.run([dict(fn='errors', codes=[str(c) for c in codes])])[0]['errors']; runs += len(codes)
        for c, x in zip(codes, r):
            want = [*errors.CODES[c], f'Custom({c})'] if c < N else None
            if x != want: return dict(kind='program', input=dict(code=c), answer=x, expected=want, violated=['the error of the code']), dict(runs=runs)
    finally: n.close()
    n = Node()
    try:
        qs = [({'code': c}, c) for c in codes + [-1]] + [({'name': x}, i) for i, (x, _) in enumerate(errors.CODES)] + [({'name': x}, None) for x in ('', 'Other', 'toString', '0')]
        for way in ('function', 'program'):
            for q, c in qs:
                q = dict(q, fn='error', way=way); r = n.run([q])[0]; runs += 1
                want = {'error': dict(name=errors.CODES[c][0], code=c, message=errors.CODES[c][1], program=True, cause=True) if c is not None and 0 <= c < N else None}
                if r != want: return dict(kind='JavaScript client', input=q, answer=r, expected=want, violated=['the error of the code or name']), dict(runs=runs)
        for reg in (None, '22'*32):
            q = dict(fn='program', payer='00'*32, probe='00'*32, registered={'mplxRewards': reg} if reg else {}); r = n.run([q])[0]
            if r.get('name') != 'mplxRewards' or r.get('key') != prog or r.get('id') != (reg or prog): return dict(kind='JavaScript client', input=q, answer=r, violated=['the program of the client']), dict(runs=runs)
    finally: n.close()
    n = conc.Native(build.replay(True))
    try:
        r = n.run([{'fn': 'client errors', 'codes': [str(c % 2**64) for c in wide]}])[0]['errors']; runs += len(wide)
        for c, x in zip(wide, r):
            for way, v, ok in (('from_u64', x[0], 0 <= c % 2**64 < N), ('from_i64', x[1], 0 <= (c + 2**63) % 2**64 - 2**63 < N)):
                want = [*errors.CODES[c], c] if ok else None
                if v != want: return dict(kind='Rust client', input=dict(code=c, way=way), answer=v, expected=want, violated=['the error of the code']), dict(runs=runs)
    finally: n.close()
    return None, dict(runs=runs)
