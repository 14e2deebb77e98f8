"""C24: the generated Rust client under the wire contract of the program.

Per instruction four ways of building it are executed symbolically from /repo's source, for all keys, argument values and account contents:
the account struct's `instruction`, the `Builder`, the CPI struct's `invoke` and the `CpiBuilder`.  The contract: the bytes the program decodes to
that instruction and values (the same tables c23_decode proves the decoder against), the accounts in the program's order, signing and writable where
the program requires it (derived from the program's handlers on every run), the program's own id; the builders' default keys are the published ones."""
import re
import z3
from terms import *
from values import *
import models, interp, world, spec, sym
from spec import *
from extra import *
import extra

CAMEL = ['InitializePool', 'FillVault', 'InitializeMining', 'DepositMining', 'WithdrawMining', 'Claim', 'ExtendStake', 'DistributeRewards', 'CloseMining', 'ChangeDelegate', 'Slash', 'DecreaseRewards']
ANAMES = {
    INIT_POOL: ['reward_pool', 'reward_mint', 'vault', 'payer', 'deposit_authority', 'rent', 'token_program', 'system_program'],
    FILL: ['reward_pool', 'reward_mint', 'vault', 'fill_authority', 'source_token_account', 'token_program'], INIT_MINING: ['reward_pool', 'mining', 'payer', 'system_program'],
    DEPOSIT: ['reward_pool', 'mining', 'deposit_authority', 'delegate_mining'], WITHDRAW: ['reward_pool', 'mining', 'deposit_authority', 'delegate_mining'],
    CLAIM: ['reward_pool', 'reward_mint', 'vault', 'mining', 'mining_owner', 'deposit_authority', 'mining_owner_reward_token_account', 'token_program'],
    EXTEND: ['reward_pool', 'mining', 'deposit_authority', 'delegate_mining'], DISTRIBUTE: ['reward_pool', 'distribute_authority'],
    CLOSE: ['mining', 'mining_owner', 'target_account', 'deposit_authority', 'reward_pool'],
    CHANGE: ['reward_pool', 'mining', 'deposit_authority', 'mining_owner', 'old_delegate_mining', 'new_delegate_mining'],
    SLASH: ['deposit_authority', 'reward_pool', 'mining'], DECREASE: ['deposit_authority', 'reward_pool', 'mining'],
}
FNAMES = {'rewards': 'rewards', 'ends': 'distribution_ends_at', 'owner': 'mining_owner', 'amount': 'amount', 'period': 'lockup_period', 'delegate': 'delegate', 'old_period': 'old_lockup_period', 'new_period': 'new_lockup_period',
    'start': 'deposit_start_ts', 'base': 'base_amount', 'additional': 'additional_amount', 'native': 'slash_amount_in_native', 'weighted': 'slash_amount_multiplied_by_period', 'date': 'stake_expiration_date',
    'penalty': 'decreased_weighted_stake_number', 'new_delegate': 'new_delegate', 'fill_authority': 'fill_authority', 'distribute_authority': 'distribute_authority'}
def fname(tag, x): return 'staked_amount' if tag == CHANGE and x == 'amount' else FNAMES[x]

def fields(u, t): return u.w.T(t)['variants'][0]['f']
def deref(u, t):
    while u.w.T(t)['k'] in ('ref', 'ptr'): t = u.w.T(t)['e']
    return t
def program_key(dumpf):
    """the program's own id, as its crate declares it"""
    u = Unit(dumpf, 'id'); st = u.state()
    k = u.find(r'^mplx_rewards::id$')
    (kind, s, v), = u.run(st, k, [])
    return models.pkval(u.w, v)

class Client:
    def __init__(self, u, dumpf, tag):
        self.u, self.tag = u, tag
        w, self.wr, self.sg, _ = needs(dumpf, tag)
        if self.sg is None: raise Unsupported('no successful path')
        self.prog = program_key(dumpf)
        u.w.used_fns_program = len(w.used_fns)
        u.w.summaries.update({k: self.invoke for k, f in u.d['fns'].items() if re.match(r'^solana_program::program::invoke(_signed)?$', f['name'])})
        self.mod = f'rewards::generated::instructions::{NAMES[tag]}::'
    def fn(self, name): return self.u.find('^' + re.escape(self.mod) + name + '$')
    def start(self, some):
        st = self.u.w.start(); A = arg_values(self.u, st, self.tag); A['date'] = rng(var('arg_date'), 64)
        for x in A:
            if x.endswith('period'): st.assume(le(A[x], 4))
        self.A, self.some = A, some
        self.keys = []
        for i in range(NSLOTS[self.tag]):
            v = var(f'par_{i}'); RANGE_AX[v.decl().name()] = z3.And(v >= 0, v < 2**256); self.keys.append(v)
        return st
    def argnames(self): return [x for x, _ in ARGS[self.tag] if x != 'has_date'] + (['date'] if self.tag == SLASH else [])
    def argval(self, st, x, t): return as_value(self.u, st, t, x, self.A[x], self.some)
    def args(self, st, t):
        """the InstructionArgs struct"""
        by = {fname(self.tag, x): x for x in self.argnames()}
        return Tup(self.argval(st, by[n], ft) if n in by else self.bad(n) for n, ft in fields(self.u, t))
    def bad(self, n): raise Unsupported('unknown field ' + n)
    def accounts(self, t, mk, extra=None):
        by = {n: i for i, n in enumerate(ANAMES[self.tag])}
        return Tup(mk(by[n]) if n in by else (extra or {}).get(n) or self.bad(n) for n, ft in fields(self.u, t))
    # -- the four ways
    def direct(self, st):
        u = self.u; k = self.fn(CAMEL[self.tag] + '::instruction'); ts = u.argtys(k)
        a = [u.ref(st, self.accounts(deref(u, ts[0]), lambda i: models.mkpk(self.keys[i])))]
        if len(ts) > 1: a.append(self.args(st, ts[1]))
        return self.finish(u.run(st, k, a))
    def finish(self, outs):
        res = []
        for kind, s, v in outs:
            if kind != 'ret': res.append((kind, s, None)); continue
            ns = [n for n, _ in self.itype]
            res.append((kind, s, dict(zip(ns, v.f))))
        return res
    @property
    def itype(self):
        for t in self.u.d['types'].values():
            if t['k'] == 'adt' and t['path'] == 'solana_program::instruction::Instruction': return t['variants'][0]['f']
        raise Unsupported('no Instruction type')
    def chain(self, st, obj, prefix, sets):
        """calls the setters one after the other"""
        sts = [st]
        for name, val in sets:
            k = self.fn(prefix + name); ts = self.u.argtys(k); nxt = []
            for s in sts:
                for kind, s2, v in self.u.run(s, k, [obj] + [val(s, ts[1])]):
                    if kind != 'ret': raise Unsupported('panic in a setter')
                    nxt.append(s2)
            sts = nxt
        return sts
    def setters(self, consts):
        out = []
        for i, n in enumerate(ANAMES[self.tag]):
            if i in CONSTS.get(self.tag, {}) and not consts: continue
            out.append((n, i, None))
        for x in self.argnames():
            if x == 'date' and not self.some: continue
            out.append((fname(self.tag, x), None, x))
        return out
    def builder(self, st, consts):
        u = self.u; b = CAMEL[self.tag] + 'Builder::'; res = []
        for kind, s, v in u.run(st, self.fn(b + 'new'), []):
            if kind != 'ret': raise Unsupported('panic in new')
            o = u.ref(s, v)
            sets = [(n, (lambda i: lambda s, t: models.mkpk(self.keys[i]))(i) if x is None else (lambda x: lambda s, t: as_value(u, s, t, x, self.A[x], True))(x)) for n, i, x in self.setters(consts)]
            for s2 in self.chain(s, o, b, sets): res += self.finish(u.run(s2, self.fn(b + 'instruction'), [o]))
        return res
    def invoke(self, m, st, args):
        """stand-in for the runtime: records the instruction and the accounts handed over"""
        st = st.fork()
        ix = m.read(st, args[0].obj, args[0].path)
        infos = m.read(st, args[1].obj, args[1].path)
        keys = []
        for a in (infos.items if isinstance(infos, Vec) else infos.f):
            ns = [n for n, _ in m.T(m.ai_t)['variants'][0]['f']]; kp = a.f[ns.index('key')]
            keys.append(models.pkval(m, m.read(st, kp.obj, kp.path)))
        st.log = st.log + (('client', ix, keys),)
        r = fresh('invoked'); rng(r, 1)
        return [(st, Enm(r, {0: (UNIT,), 1: (Opq('progerr'),)}))]
    def ai(self, i): return Ptr(('accs',), (('i', i),))
    def collect(self, outs):
        res = []
        n = NSLOTS[self.tag]
        for kind, s, v in outs:
            if kind != 'ret': res.append((kind, s, None)); continue
            es = [e for e in s.log if e[0] == 'client']
            if len(es) != 1: res.append(('not invoked once', s, None)); continue
            I = dict(zip([n for n, _ in self.itype], es[0][1].f)); I['infos'] = es[0][2]
            res.append(('ret', s, I))
        return res
    def cpi(self, st):
        u = self.u; n = NSLOTS[self.tag]
        k = self.fn(CAMEL[self.tag] + r'Cpi::<.*>::invoke'.replace('\\', '')) if False else u.find('^' + re.escape(self.mod + CAMEL[self.tag]) + r"Cpi::<.*>::invoke$")
        ts = u.argtys(k); t = deref(u, ts[0])
        self.keys = [u.w.slot(i)['key'] for i in range(n)]
        ex = {'__program': self.ai(n)}
        if any(x == '__args' for x, _ in fields(u, t)): ex['__args'] = self.args(st, next(ft for x, ft in fields(u, t) if x == '__args'))
        return self.collect(u.run(st, k, [u.ref(st, self.accounts(t, self.ai, ex))]))
    def cpibuilder(self, st):
        u = self.u; n = NSLOTS[self.tag]; pre = '^' + re.escape(self.mod + CAMEL[self.tag]) + r'CpiBuilder::<.*>::'
        self.keys = [u.w.slot(i)['key'] for i in range(n)]; res = []
        for kind, s, v in u.run(st, u.find(pre + 'new$'), [self.ai(n)]):
            if kind != 'ret': raise Unsupported('panic in new')
            o = u.ref(s, v); sts = [s]
            for name, i, x in self.setters(True):
                k = u.find(pre + name + '$'); ts = u.argtys(k); nxt = []
                for s2 in sts:
                    for kind, s3, _ in u.run(s2, k, [o, self.ai(i) if x is None else as_value(u, s2, ts[1], x, self.A[x], True)]):
                        if kind != 'ret': raise Unsupported('panic in a setter')
                        nxt.append(s3)
                sts = nxt
            for s2 in sts: res += self.collect(u.run(s2, u.find(pre + 'invoke$'), [o]))
        return res
    # -- the contract
    def check(self, way, outs, consts):
        u, tag = self.u, self.tag
        u.must(f'{way}: an instruction is always built', bool(outs) and all(k == 'ret' for k, _, _ in outs))
        for kind, s, I in outs:
            if kind != 'ret': continue
            u.prove(f"{way}: addressed to the program's id", s.pc, eq(models.pkval(u.w, I['program_id']), self.prog))
            n0 = len(u.r['failed'])
            check_wire(u, s, tag, self.A, self.some, I['data'])
            ms = metas(I['accounts'])
            u.must(f'{way}: exactly the accounts of the instruction', len(ms) == NSLOTS[tag])
            pos = {i: r for r, i in ROLES[tag].items()}
            for i, m in enumerate(ms[:NSLOTS[tag]]):
                pkv, sig, wri = m.f; nm = ANAMES[tag][i]; role = pos.get(i, 'constant')
                if i in CONSTS.get(tag, {}) and not consts: u.prove(f'{way}: {nm} defaults to the published key', s.pc, eq(models.pkval(u.w, pkv), CONSTS[tag][i]))
                else: u.prove(f'{way}: account {i} is {nm}', s.pc, eq(models.pkval(u.w, pkv), self.keys[i]))
                if role in SIGNERS[tag] or i in self.sg: u.prove(f'{way}: {nm} signs', s.pc, sig)
                if role in WRITTEN[tag] or i in self.wr: u.prove(f'{way}: {nm} is writable', s.pc, wri)
            if 'infos' in I:
                for i in range(NSLOTS[tag] + 1): u.prove(f'{way}: account {i} is handed to the call', s.pc, or_(*[eq(k, u.w.slot(i)['key']) for k in I['infos']]))
            for f in u.r['failed'][n0:]:
                if not f['obligation'].startswith(way): f['obligation'] = f'{way}: ' + f['obligation']

def c24(u, dumpf, tag):
    c = Client(u, dumpf, tag); bad = []
    if any(x.endswith('period') for x, _ in ARGS[tag]):
        ps = interp.load_dump(dumpf)
        for who, d in (('client', u.d), ('program', ps)):
            for t in d['types'].values():
                if t['k'] == 'adt' and t['path'].endswith('::LockupPeriod'): u.must(f'{who}: the periods are coded 0 to 4 in the published order', [(v['n'], int(v['d'])) for v in t['variants']] == [(n, i) for i, n in enumerate(PERIODS)])
    for way, f in (('instruction', c.direct), ('builder', c.builder), ('cpi', c.cpi), ('cpi builder', c.cpibuilder)):
        try:
            for some in ((True, False) if tag == SLASH else (True,)):
                for consts in ((True, False) if way == 'builder' and tag in CONSTS else (True,)):
                    st = c.start(some)
                    c.check(way, f(st, consts) if way == 'builder' else f(st), consts)
        except Unsupported as e: bad.append(f'{way}: {e}')
    if bad: raise Unsupported('; '.join(bad))
