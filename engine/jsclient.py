"""The generated JavaScript client under the wire contract of the program (C33), its account decoders (C32) and error tables (C34).

The source of /repo/clients/js/src is parsed on every run (types erased by the TypeScript compiler, as when it is built) and executed
symbolically: every way the caller may give an account (public key, program address, signer, left out where the client has a default), all
argument values, all account contents.  The functions of @metaplex-foundation/umi are used by contract (listed in TRUST)."""
import json, os, subprocess, hashlib
import z3
from terms import *
from values import *
import build, spec, sym, client, extra, jsx
from jsx import *
from spec import *
from client import ANAMES, fname

TRUST = ['@metaplex-foundation/umi by contract: publicKey, isSigner, isPda, transactionBuilder, ProgramRepository.getPublicKey, deserializeAccount, assertAccountExists, gpaBuilder, RPC answers, serializers (u8..u128, bool, publicKey, struct, mapSerializer, option, array, scalarEnum)',
    'JavaScript numbers and bigints given by the caller as mathematical integers within the range of the field; promises by the value they resolve to', 'the TypeScript compiler (erasing types) and acorn (parsing)', 'the JavaScript evaluator engine/jsx.py']
UMI = '@metaplex-foundation/umi'; SER = UMI + '/serializers'
ROOT = lambda: os.path.join(build.REPO, 'clients/js/src')

def asts():
    root = ROOT(); h = hashlib.sha256()
    fs = sorted(os.path.join(d, n) for d, _, ns in os.walk(root) for n in ns if n.endswith('.ts'))
    if not fs: raise Unsupported('no JavaScript client')
    for f in fs: h.update(f.encode() + b'\0' + open(f, 'rb').read() + b'\0')
    p = os.path.join(build.BUILD, f'js-{h.hexdigest()[:16]}.json')
    if not os.path.exists(p):
        os.makedirs(build.BUILD, exist_ok=True)
        r = subprocess.run(['node', os.path.join(os.path.dirname(os.path.abspath(__file__)), 'js', 'ast.js'), root], capture_output=True, text=True, timeout=120)
        if r.returncode: raise Unsupported('the JavaScript client does not parse: ' + r.stderr[-300:])
        open(p + f'.{os.getpid()}', 'w').write(r.stdout); os.replace(p + f'.{os.getpid()}', p)
    return json.load(open(p))

# ---------------------------------------------------------------- contracts of umi
def kt(v):
    """a public key as a term"""
    if isinstance(v, Sy) and v.k == 'pk': return v.t
    if isinstance(v, str):
        k = key(v)
        if k is not None: return k
    return None
def u_publicKey(js, a, this):
    v, bump = a[0], a[1] if len(a) > 1 else True
    if isinstance(v, Acct):
        if bump is False:
            if not js.x.decide(v.kind != 0): raise JThrow('no key')
            return Sy(v.key, 'pk')
        v = js.split(v)
    if isinstance(v, Arr) and len(v.a) == 2: return v if bump is not False else v.a[0]
    if isinstance(v, Obj) and 'publicKey' in v.p: v = v.p['publicKey']
    if kt(v) is None: raise JThrow('not a public key')
    return v
def u_isSigner(js, a, this):
    v = a[0]
    if isinstance(v, Acct):
        return SyB(v.kind == 3)
    return isinstance(v, Obj) and 'publicKey' in v.p and 'signMessage' in v.p
def u_isPda(js, a, this):
    v = a[0]
    if isinstance(v, Acct): return SyB(v.kind == 2)
    return isinstance(v, Arr) and len(v.a) == 2 and kt(v.a[0]) is not None
def u_isPublicKey(js, a, this):
    v = a[0]
    if isinstance(v, Acct): return SyB(v.kind == 1)
    return kt(v) is not None
def u_tb(js, a, this): return Obj({'items': a[0] if a else Arr()}, cls='builder')
class Bytes:
    __slots__ = ('ps',)
    def __init__(self, ps): self.ps = list(ps)
class Buffer:
    """account data: leaves of a symbolic account"""
    __slots__ = ('name',)
    def __init__(self, name): self.name = name
def ser(size, enc, dec, desc=''):
    """serializer with contract: enc(js, value) -> pieces; dec(js, buffer, offset) -> (value, offset)"""
    def s(js, a, this): return Bytes(enc(js, a[0] if a else UNDEF))
    def d(js, a, this):
        if not isinstance(a[0], Buffer): raise Unsupported('deserialization of other bytes')
        v, o = dec(js, a[0], a[1] if len(a) > 1 else 0); return Arr([v, o])
    return Obj({'serialize': Nat(s), 'deserialize': Nat(d), 'fixedSize': size, 'maxSize': size, 'description': desc}, cls='serializer')
def options(a, i, allowed=()):
    o = a[i] if len(a) > i else UNDEF
    if o is UNDEF or o is None: return {}
    r = {k: v for k, v in o.p.items() if k not in ('description',)}
    for k in r:
        if k not in allowed: raise Unsupported(f'serializer option {k}')
    return r
def u_int(n, signed=False):
    def mk(js, a, this):
        be = options(a, 0, ('endian',)).get('endian') == 'be'
        def enc(js, v):
            if isinstance(v, bool) or not isinstance(v, (int, Sy)) or isinstance(v, Sy) and v.k != 'int': raise JThrow('not a number')
            t = v.t if isinstance(v, Sy) else v
            ok = and_(le(0, t), le(t, 2**(8*n) - 1))
            if ok is not True and (ok is False or not js.x.decide(ok)): raise JThrow('number out of range')
            return [(n, t, be)]
        def dec(js, b, o):
            v = leaf_var(b.name, o, n)
            if be and n > 1: v = z3.Int(f'be_{b.name}@{o}.{n}')
            js.x.pc.append(z3.And(v >= 0, v < 2**(8*n))); return Sy(v, 'int'), o + n
        return ser(n, enc, dec)
    return mk
def u_pk(js, a, this):
    options(a, 0)
    def enc(js, v):
        if isinstance(v, Acct): v = u_publicKey(js, [v, False], UNDEF)
        if isinstance(v, Obj) or isinstance(v, Arr): v = u_publicKey(js, [v, False], UNDEF)
        if kt(v) is None: raise JThrow('not a public key')
        return [(32, kt(v), False)]
    return ser(32, enc, lambda js, b, o: (Sy(leaf_var(b.name, o, 32), 'pk'), o + 32))
def u_bool(js, a, this):
    def enc(js, v): return [(1, 1 if js.truth(v) else 0, False)]
    def dec(js, b, o): v = leaf_var(b.name, o, 1); return SyB(v == 1), o + 1
    return ser(1, enc, dec)
def S(js, s): 
    if not (isinstance(s, Obj) and s.cls == 'serializer'): raise Unsupported('serializer')
    return s
def senc(js, s, v):
    b = js.call(s.p['serialize'], [v], s)
    if not isinstance(b, Bytes): raise Unsupported('serialized value')
    return b.ps
def sdec(js, s, b, o): r = js.call(s.p['deserialize'], [b, o], s); return r.a[0], r.a[1]
def u_struct(js, a, this):
    fs = [(f.a[0], S(js, f.a[1])) for f in js.iter(a[0])]; options(a, 1)
    def enc(js, v): return [p for n, s in fs for p in senc(js, s, js.prop(v, n))]
    def dec(js, b, o):
        r = Obj()
        for n, s in fs: r.p[n], o = sdec(js, s, b, o)
        return r, o
    sz = [s.p.get('fixedSize') for _, s in fs]
    return ser(sum(sz) if all(isinstance(x, int) for x in sz) else None, enc, dec)
def u_map(js, a, this):
    s = S(js, a[0]); un = a[1]; mp = a[2] if len(a) > 2 else UNDEF
    def enc(js, v): return senc(js, s, js.call(un, [v]))
    def dec(js, b, o):
        v, o = sdec(js, s, b, o)
        return (v if mp is UNDEF else js.call(mp, [v, b, 0])), o
    return ser(s.p.get('fixedSize'), enc, dec)
def u_option(js, a, this):
    s = S(js, a[0]); options(a, 1)
    def enc(js, v):
        if isinstance(v, Obj) and '__option' in v.p: some = v.p['__option'] == 'Some'; v = v.p.get('value', UNDEF)
        else: some = not js.nullish(v)
        return [(1, 1, False)] + senc(js, s, v) if some else [(1, 0, False)]
    return ser(None, enc, lambda *x: (_ for _ in ()).throw(Unsupported('decoding an option')))
def u_array(js, a, this):
    s = S(js, a[0]); o = options(a, 1, ('size',)); n = o.get('size', UNDEF)
    def enc(js, v):
        if not isinstance(v, Arr): raise Unsupported('array value')
        ps = [p for x in v.a for p in senc(js, s, x)]
        if isinstance(n, int):
            if len(v.a) != n: raise JThrow('array length')
            return ps
        if n == 'remainder': return ps
        return [(4, len(v.a), False)] + ps
    def dec(js, b, off):
        if not isinstance(n, int): raise Unsupported('array of variable length')
        r = []
        for _ in range(n): v, off = sdec(js, s, b, off); r.append(v)
        return Arr(r), off
    z = s.p.get('fixedSize')
    return ser(n * z if isinstance(n, int) and isinstance(z, int) else None, enc, dec)
def u_enum(js, a, this):
    e = a[0]; options(a, 1)
    if not isinstance(e, Obj): raise Unsupported('enum')
    vals = [v for v in e.p.values() if isinstance(v, int)]; lo, hi = min(vals, default=0), max(vals, default=-1)
    def enc(js, v):
        if isinstance(v, str): v = e.p.get(v, UNDEF)
        if isinstance(v, bool) or not isinstance(v, (int, Sy)): raise JThrow('not a variant')
        t = v.t if isinstance(v, Sy) else v
        ok = and_(le(lo, t), le(t, hi))
        if ok is not True and (ok is False or not js.x.decide(ok)): raise JThrow('no such variant')
        return [(1, t, False)]
    def dec(js, b, o): v = leaf_var(b.name, o, 1); return Sy(v, 'int'), o + 1
    return ser(1, enc, dec)
def u_deser(js, a, this):
    raw, s = a[0], S(js, a[1])
    if not (isinstance(raw, Obj) and raw.cls == 'raw'): raise Unsupported('account of other origin')
    v, _ = sdec(js, s, raw.p['data'], 0)
    return Obj({**v.p, 'publicKey': raw.p['publicKey'], 'header': raw.p['header']}, cls='account')
def u_exists(js, a, this):
    if not js.truth(js.prop(a[0], 'exists')): raise JThrow('account does not exist')
    return UNDEF
def u_gpa(js, a, this):
    o = Obj({'program': a[1], 'fields': UNDEF, 'deser': UNDEF}, cls='gpa')
    o.p['registerFields'] = Nat(lambda js, b, this: (o.p.__setitem__('fields', b[0]), o)[1])
    o.p['deserializeUsing'] = Nat(lambda js, b, this: (o.p.__setitem__('deser', b[0]), o)[1])
    return o
def perr(js, a, obj):
    obj.p.update(message=a[0], program=a[1] if len(a) > 1 else UNDEF, cause=a[2] if len(a) > 2 else UNDEF); return obj
def natives():
    def new(f): n = Nat(None, 'class'); n.p['%new'] = f; return n
    def jmap(js, a, obj):
        m = MapV()
        for e in (js.iter(a[0]) if a and not js.nullish(a[0]) else []): m.d[mkey(e.a[0])] = e.a[1]
        return m
    err = new(lambda js, a, obj: (obj or Obj(cls='error')))
    O = lambda f: Nat(lambda js, a, this: f(js, *a))
    def vals(js, o): return [v for _, v in js.own(o)]
    def assign(js, t, *ss):
        for s in ss: t.p.update(dict(js.own(s)))
        return t
    obj = Obj({'values': O(lambda js, o: Arr(vals(js, o))), 'keys': O(lambda js, o: Arr(k for k, _ in js.own(o))), 'entries': O(lambda js, o: Arr(Arr(e) for e in js.own(o))), 'assign': O(assign),
        'freeze': O(lambda js, o: o), 'fromEntries': O(lambda js, l: Obj({js.pkey(e.a[0]): e.a[1] for e in js.iter(l)}))})
    isarr = O(lambda js, v: isinstance(v if not isinstance(v, Acct) else js.split(v), Arr))
    def number(js, v):
        if isinstance(v, Sy) and v.k == 'int':
            if js.x.decide(z3.And(v.t <= 2**53, v.t >= -2**53)): return v
            f = Sy(z3.Int(f'rounded_{v.t}'), 'int'); js.x.pc.append(z3.And(f.t >= 0, f.t <= 2**128)); return f
        if isinstance(v, int): return v
        raise Unsupported('Number')
    def bigint(js, v):
        if isinstance(v, (int, Sy)) and not (isinstance(v, Sy) and v.k == 'pk'): return v
        raise Unsupported('BigInt')
    n = {(UMI, 'publicKey'): Nat(u_publicKey), (UMI, 'isSigner'): Nat(u_isSigner), (UMI, 'isPda'): Nat(u_isPda), (UMI, 'isPublicKey'): Nat(u_isPublicKey), (UMI, 'transactionBuilder'): Nat(u_tb),
        (UMI, 'deserializeAccount'): Nat(u_deser), (UMI, 'assertAccountExists'): Nat(u_exists), (UMI, 'gpaBuilder'): Nat(u_gpa), (UMI, 'ProgramError'): new(perr),
        (UMI, 'none'): Nat(lambda js, a, this: Obj({'__option': 'None'})), (UMI, 'some'): Nat(lambda js, a, this: Obj({'__option': 'Some', 'value': a[0]})),
        ('', 'Object'): obj, ('', 'Array'): Obj({'isArray': isarr, 'from': O(lambda js, v: Arr(js.iter(v)))}), ('', 'Map'): new(jmap), ('', 'Error'): err, ('', 'Number'): O(number), ('', 'BigInt'): O(bigint),
        (SER, 'publicKey'): Nat(u_pk), (SER, 'bool'): Nat(u_bool), (SER, 'struct'): Nat(u_struct), (SER, 'mapSerializer'): Nat(u_map), (SER, 'option'): Nat(u_option), (SER, 'array'): Nat(u_array), (SER, 'scalarEnum'): Nat(u_enum),
        (SER, 'Endian'): Obj({'Little': 'le', 'Big': 'be'})}
    for b in (8, 16, 32, 64, 128): n[(SER, f'u{b}')] = Nat(u_int(b // 8))
    return n
def camel(s): p = s.split('_'); return p[0] + ''.join(x.capitalize() for x in p[1:])

def prove(u, what, pc, goal):
    u.r['obligations'] += 1
    if not isinstance(goal, bool): goal = unz(z3.simplify(goal))
    if goal is True: u.ok('trivial'); return
    s = z3.Solver(); s.set('timeout', 10000); s.add(*pc); s.add(z3.Not(zb(goal))); a = s.check()
    if a == z3.unsat: u.ok('z3')
    else: u.r['failed'].append(dict(obligation=what, answer=str(a)))
class Run:
    def __init__(self, u, dumpf):
        self.u, self.a = u, asts(); self.prog = client.program_key(dumpf)
        self.paths = 0
    def context(self, x, js):
        """umi's context: the program repository answers with a registered program or the fallback"""
        def get(js, a, this):
            nm = a[0]; fb = a[1] if len(a) > 1 else UNDEF
            if not isinstance(nm, str): raise Unsupported('program name')
            reg, rk = z3.Bool(f'registered_{nm}'), z3.Int(f'registered_key_{nm}')
            x.pc.append(rk >= 0)
            pub = dict(splToken=SPL, splSystem=SYSTEM).get(nm)
            if pub is not None: x.pc.append(rk == pub)
            if kt(fb) is None:
                if not x.decide(reg): raise JThrow('program not registered')
                return Sy(rk, 'pk')
            return Sy(z3.If(reg, rk, zi(kt(fb))), 'pk')
        payer = Obj({'publicKey': Sy(z3.Int('ctx_payer'), 'pk'), 'signMessage': UNDEF, 'signTransaction': UNDEF}, cls=('signer', 'ctx_payer'))
        ident = Obj({'publicKey': Sy(z3.Int('ctx_identity'), 'pk'), 'signMessage': UNDEF, 'signTransaction': UNDEF}, cls=('signer', 'ctx_identity'))
        return Obj({'programs': Obj({'getPublicKey': Nat(get)}), 'payer': payer, 'identity': ident, 'rpc': self.rpc(x)})
    def rpc(self, x):
        def one(js, k):
            k = u_publicKey(js, [k, False], UNDEF); t = kt(k)
            return Obj({'publicKey': k, 'exists': SyB(z3.Bool(f'exists_{t}')), 'data': Buffer(f'acc_{t}'), 'header': Obj({'owner': Sy(z3.Int(f'owner_{t}'), 'pk')}, cls='header')}, cls='raw')
        return Obj({'getAccount': Nat(lambda js, a, this: one(js, a[0])), 'getAccounts': Nat(lambda js, a, this: Arr(one(js, k) for k in js.iter(a[0])))})
    def progid(self): return z3.If(z3.Bool('registered_mplxRewards'), z3.Int('registered_key_mplxRewards'), zi(self.prog))
    def explore(self, body):
        """body(js, x): evaluated on every path of the current source"""
        x = Explorer()
        for r, pc in x.paths(lambda x: body(JS(self.a, natives(), x), x)):
            self.paths += 1
            yield r, pc
    def exported(self, js, name, root='generated/index.ts'):
        root = 'index.ts' if 'index.ts' in self.a else root
        v = js.export(root, name)
        if v is None: raise Unsupported(f'no export {name}')
        return v
    def period(self):
        """the enumeration of the client against the published order"""
        for r, pc in self.explore(lambda js, x: self.exported(js, 'LockupPeriod')):
            self.u.must('the periods are coded 0 to 4 in the published order', r[0] == 'ret' and isinstance(r[1], Obj) and all(r[1].p.get(n) == i for i, n in enumerate(extra.PERIODS)) and sum(isinstance(v, int) for v in r[1].p.values()) == 5)

OPTIONAL = {INIT_POOL: ['payer', 'rent', 'token_program', 'system_program'], FILL: ['token_program'], INIT_MINING: ['payer', 'system_program'], CLAIM: ['token_program']}
def bytewise(ps):
    out = []
    for n, t, be in ps:
        b = [mod(div(t, 256**i), 256) if n > 1 else t for i in range(n)]
        out += b[::-1] if be else b
    return out
def c33(u, dumpf, tag):
    R = Run(u, dumpf); nm = camel(NAMES[tag])
    _, wr, sg, _ = extra.needs(dumpf, tag)
    if sg is None: raise Unsupported('no successful path')
    pos = {i: r for r, i in ROLES[tag].items()}
    needsig = {i for i in range(NSLOTS[tag]) if pos.get(i) in SIGNERS[tag] or i in sg}
    needwr = {i for i in range(NSLOTS[tag]) if pos.get(i) in WRITTEN[tag] or i in wr}
    if any(x.endswith('period') for x, _ in ARGS[tag]): R.period()
    argn = [(x, n) for x, n in ARGS[tag] if x != 'has_date']
    T = {x: z3.Int(f'arg_{x}') for x, _ in argn}; date = z3.Int('arg_date')
    for form in (('null', 'none', 'some', 'value') if tag == SLASH else ('',)):
        accs = {}
        def body(js, x):
            inp = Obj()
            for i, a in enumerate(ANAMES[tag]):
                kinds = ([3] if i in needsig else [1, 2, 3]) + ([0] if a in OPTIONAL.get(tag, ()) else [])
                inp.p[camel(a)] = accs[i] = Acct(a, kinds, x)
            for y, n in argn:
                x.pc.append(z3.And(T[y] >= 0, T[y] < 2**(8*n)) if not y.endswith('period') else z3.And(T[y] >= 0, T[y] <= 4))
                inp.p[camel(fname(tag, y))] = Sy(T[y], 'pk' if n == 32 else 'int')
            if tag == SLASH:
                x.pc.append(z3.And(date >= 0, date < 2**64)); d = Sy(date, 'int')
                inp.p[camel(fname(tag, 'date'))] = {'null': None, 'none': Obj({'__option': 'None'}), 'some': Obj({'__option': 'Some', 'value': d}), 'value': d}[form]
            return js.call(R.exported(js, nm), [R.context(x, js), inp])
        n = 0
        for (kind, v), pc in R.explore(body):
            n += 1
            u.must('an instruction is always built', kind == 'ret' and isinstance(v, Obj) and v.cls == 'builder' and len(v.p['items'].a) == 1)
            if kind != 'ret': continue
            it = v.p['items'].a[0]; ix = it.p['instruction']; ks = ix.p['keys'].a
            pk = kt(ix.p['programId'])
            prove(u, 'addressed to the program', pc, False if pk is None else zi(pk) == R.progid())
            u.must('exactly the accounts of the instruction', len(ks) == NSLOTS[tag])
            if len(ks) != NSLOTS[tag]: continue
            boolt = lambda b: b.c if isinstance(b, SyB) else bool(b) if isinstance(b, bool) else None
            sn = [(s.kind == 3, s.key) if isinstance(s, Acct) else (True, kt(s.p['publicKey'])) for s in it.p['signers'].a if isinstance(s, Acct) or isinstance(s, Obj)]
            for i, m in enumerate(ks):
                a = accs[i]; c = CONSTS.get(tag, {}).get(i); nma = ANAMES[tag][i]
                default = {'payer': z3.Int('ctx_payer')}.get(nma, c)
                want = z3.If(a.kind == 0, zi(default), a.key) if default is not None else a.key
                k = kt(m.p['pubkey'])
                prove(u, f'account {i} is {nma}', pc, False if k is None else zi(k) == want)
                sigv, wriv = boolt(m.p['isSigner']), boolt(m.p['isWritable'])
                if i in needsig:
                    prove(u, f'{nma} signs', pc, sigv if sigv is not None else False)
                    prove(u, f'the signer of {nma} is attached', pc, or_(*[and_(c2, eq(k2, want)) for c2, k2 in sn]))
                if i in needwr: prove(u, f'{nma} is writable', pc, wriv if wriv is not None else False)
            data = ix.p['data']
            if not isinstance(data, Bytes): raise Unsupported('instruction data')
            want = [(1, tag)] + [(z, T[y]) for y, z in argn]
            if tag == SLASH: want += [(1, 1), (8, date)] if form in ('some', 'value') else [(1, 0)]
            u.must(f'{sum(z for z, _ in want)} bytes of data', sum(z for z, _, _ in data.ps) == sum(z for z, _ in want))
            if [p[0] for p in data.ps] == [z for z, _ in want] and not any(p[2] for p in data.ps if p[0] > 1):
                names = ['discriminator'] + [y for y, _ in argn] + ['date coded', 'date']
                for (z, t, _), (_, w2), y in zip(data.ps, want, names): prove(u, f'bytes of {y}', pc, eq(t, w2))
            elif sum(z for z, _, _ in data.ps) == sum(z for z, _ in want):
                for j, (p, q) in enumerate(zip(bytewise(data.ps), bytewise([(z, t, False) for z, t in want]))): prove(u, f'byte {j}', pc, eq(p, q))
        u.must('some path', n > 0)
    u.r['detail'] = dict(paths=R.paths)
    u.r['js'] = sorted(R.a)

# ---------------------------------------------------------------- C32: account decoders
FIELDS = {
    'reward_pool': dict(deposit_authority='deposit_authority', distribute_authority='distribute_authority', fill_authority='fill_authority', reward_mint='mint', index_with_precision='index', total_share='total',
        distribution_ends_at='ends', tokens_available_for_distribution='avail', token_account_bump='bump'),
    'mining': dict(reward_pool='pool', owner='owner', reward_mint='mint', index_with_precision='index', share='share', unclaimed_rewards='unclaimed', stake_from_others='sfo', bump='bump'),
}
TABLE = dict(reward_pool=(POOL, 176, POOL_LEN), mining=(MINE, 144, MINE_LEN))
def places(which):
    """published field -> (offset, size) in the program's record; the rest of the record is `data`"""
    T, rec, _ = TABLE[which]; r = {n: T[f] for n, f in FIELDS[which].items()}
    return r, (T['type'][0], rec - T['type'][0])
def same_js(v, name, off, n):
    """value decoded by the client is the field's bytes"""
    w = leaf_var(name, off, n)
    if isinstance(v, Sy): return zi(v.t) == w
    if isinstance(v, int): return w == v
    return False
def c32_js(u, dumpf, which):
    R = Run(u, dumpf); P, (d0, dn) = places(which); cm = camel(which); C = cm[0].upper() + cm[1:]; rec = TABLE[which][1]
    def record(what, pc, o, name, more=()):
        u.must(f'{what}: a record', isinstance(o, Obj))
        if not isinstance(o, Obj): return
        u.must(f'{what}: exactly the published fields', {k for k in o.p if k not in more} == {camel(n) for n in P} | {'data'})
        for n, (off, z) in P.items():
            v = o.p.get(camel(n), UNDEF)
            u.must(f'{what}: {n} is a {"key" if z == 32 else "number"}', isinstance(v, Sy) and v.k == ('pk' if z == 32 else 'int'))
            prove(u, f'{what}: {n} is read from its place', pc, same_js(v, name, off, z))
        t = o.p.get('data', UNDEF)
        u.must(f'{what}: the rest of the record', isinstance(t, Arr) and len(t.a) == dn)
        if isinstance(t, Arr) and len(t.a) == dn:
            for i, v in enumerate(t.a): prove(u, f'{what}: byte {i} of the rest', pc, same_js(v, name, d0 + i, 1))
    def raw(x): return Obj({'publicKey': Sy(z3.Int('acc'), 'pk'), 'exists': SyB(z3.Bool('acc_exists')), 'data': Buffer('A'), 'header': Obj(cls='header')}, cls='raw')
    for (k, v), pc in R.explore(lambda js, x: sdec(js, S(js, js.call(R.exported(js, f'get{C}AccountDataSerializer'), [])), Buffer('A'), 0)[0]):
        u.must('serializer: decodes', k == 'ret')
        if k == 'ret': record('serializer', pc, v, 'A')
    for (k, v), pc in R.explore(lambda js, x: js.call(R.exported(js, f'deserialize{C}'), [raw(x)])):
        u.must(f'deserialize{C}: decodes', k == 'ret')
        if k == 'ret': record(f'deserialize{C}', pc, v, 'A', ('publicKey', 'header')); prove(u, 'keeps the address', pc, False if kt(v.p.get('publicKey')) is None else zi(kt(v.p['publicKey'])) == z3.Int('acc'))
    for fn in ('fetch', 'safeFetch'):
        acc = {}
        def body(js, x):
            acc[0] = Acct('wanted', [1, 2], x)
            return js.call(R.exported(js, f'{fn}{C}'), [R.context(x, js), acc[0]])
        for (k, v), pc in R.explore(body):
            kk = acc[0].key; ex = z3.Bool(f'exists_{kk}')
            if k == 'throw': prove(u, f'{fn}{C}: fails only if the account does not exist', pc, and_(fn == 'fetch', z3.Not(ex))); continue
            if v is None: prove(u, f'{fn}{C}: nothing only if the account does not exist', pc, and_(fn == 'safeFetch', z3.Not(ex))); continue
            prove(u, f'{fn}{C}: the account exists', pc, ex)
            record(f'{fn}{C}', pc, v, f'acc_{kk}', ('publicKey', 'header'))
    for (k, v), pc in R.explore(lambda js, x: (lambda g: (g, js.call(g.p['deser'], [raw(x)]) if isinstance(g, Obj) and g.cls == 'gpa' else None, {n: sdec(js, S(js, e.a[1]), Buffer('A'), e.a[0])[0] for n, e in js.own(g.p['fields'])}))(js.call(R.exported(js, f'get{C}GpaBuilder'), [R.context(x, js)]))):
        u.must('query: built', k == 'ret')
        if k != 'ret': continue
        g, acc1, fs = v; pk = kt(g.p['program'])
        prove(u, 'query: accounts of the program', pc, False if pk is None else zi(pk) == R.progid())
        record('query: fields', pc, Obj(fs), 'A'); record('query: accounts', pc, acc1, 'A', ('publicKey', 'header'))
    for (k, v), pc in R.explore(lambda js, x: js.call(R.exported(js, f'get{C}Size'), [])): u.must('size of the record', k == 'ret' and v == rec)
    u.r['detail'] = dict(paths=R.paths); u.r['js'] = sorted(R.a)

def c32_rust(u, which, way):
    """the Rust client's decoders on account data of every length and content"""
    P, (d0, dn) = places(which); C = ''.join(x.capitalize() for x in which.split('_')); rec = TABLE[which][1]
    mod_ = f'rewards::generated::accounts::{which}::{C}'
    if way == 'from_bytes':
        k = u.find('^' + mod_ + '::from_bytes$'); st = u.state(); st.mem[('B',)] = Buf('B', rng(var('BLEN'), 32)); n = st.mem[('B',)].len; name = 'B'; arg = Ptr(('B',), (), 0, n)
    else:
        k = u.find('^<' + mod_ + r' as std::convert::TryFrom<&solana_program::account_info::AccountInfo<.*>>>::try_from$'); st = u.state(); n = u.w.slot(0)['len']; name = 'D0'; arg = Ptr(('accs',), (('i', 0),))
    for kind, s, v in u.run(st, k, [arg]):
        u.must('never panics', kind == 'ret')
        if kind != 'ret': continue
        if not isinstance(v, Enm): raise Unsupported('result')
        u.prove('decodes exactly the data that is long enough', s.pc, iff(eq(v.d, 0), le(rec, n)))
        if 0 not in v.alts or isc(v.d) and v.d != 0: continue
        T = u.w.T(gok_(u, k)); fs = T['variants'][0]['f']
        got = dict(zip([x for x, _ in fs], v.alts[0][0].f))
        u.must('exactly the published fields', set(got) == set(P) | {'data'})
        for f, (off, z) in P.items():
            if f in got: u.prove(f'{f} is read from its place', s.pc, implies(eq(v.d, 0), eq(extra.flat(got[f], None, u.w), leaf_var(name, off, z))), extra=sym.leaf_links())
        if 'data' in got:
            d = got['data']
            if not isinstance(d, BArr): raise Unsupported('rest of the record')
            u.must('size of the rest', d.n == dn)
            for i in range(min(dn, d.n)): u.prove(f'byte {i} of the rest', s.pc, implies(eq(v.d, 0), eq(bint(extra.bslice(d, i, 1)), leaf_var(name, d0 + i, 1))), extra=sym.leaf_links())
def gok_(u, k): return u.w.T(u.d['fns'][k]['locals'][0])['variants'][0]['f'][0][1]
