"""The specification: expected effect of every instruction, and the properties, over an abstract case.

A case is one successful run of the program's entry point: symbolic (SymCase: one outcome of the verifier, all inputs at
once) or concrete (ConcCase: one native run).  All formulas are built with the folding term constructors of terms.py, so the
same text serves as proof obligation and as run-time oracle."""
import hashlib
from terms import *
import trees
from trees import fold, credit, TIns, TTrunc, TEmpty, tree_ite, INF

DAY = 86400
SPL = int.from_bytes(bytes([6,221,246,225,215,101,161,147,217,203,225,70,206,235,121,172,28,180,133,237,95,91,55,145,58,140,245,133,126,255,0,169]), 'little')
SYSTEM = 0

POOL = dict(deposit_authority=(0,32), distribute_authority=(32,32), fill_authority=(64,32), mint=(96,32), index=(128,16), total=(144,8), ends=(152,8), avail=(160,8), bump=(168,1), type=(169,1))
POOL_T = dict(diffs=(176, 11712, 365, U64), hist=(11888, 52592, 1095, 2**128-1))
POOL_LEN = 64480
MINE = dict(pool=(0,32), owner=(32,32), mint=(64,32), index=(96,16), share=(112,8), unclaimed=(120,8), sfo=(128,8), bump=(136,1), type=(137,1))
MINE_T = dict(diffs=(144, 1632, 50, U64))
MINE_LEN = 1776
for _i in range(1, 7): POOL[f'pad{_i}'] = (169+_i, 1); MINE[f'pad{_i}'] = (137+_i, 1)

NAMES = ['initialize_pool', 'fill_vault', 'initialize_mining', 'deposit_mining', 'withdraw_mining', 'claim', 'extend_stake', 'distribute_rewards', 'close_mining', 'change_delegate', 'slash', 'decrease_rewards']
INIT_POOL, FILL, INIT_MINING, DEPOSIT, WITHDRAW, CLAIM, EXTEND, DISTRIBUTE, CLOSE, CHANGE, SLASH, DECREASE = range(12)
# account positions: pool, member, deposit authority, delegates ...
ROLES = {
    INIT_POOL: dict(pool=0, mint=1, vault=2, payer=3, auth=4, rent=5),
    FILL: dict(pool=0, mint=1, vault=2, auth=3, source=4),
    INIT_MINING: dict(pool=0, member=1, payer=2),
    DEPOSIT: dict(pool=0, member=1, auth=2, delegate=3),
    WITHDRAW: dict(pool=0, member=1, auth=2, delegate=3),
    CLAIM: dict(pool=0, mint=1, vault=2, member=3, owner=4, auth=5, dest=6),
    EXTEND: dict(pool=0, member=1, auth=2, delegate=3),
    DISTRIBUTE: dict(pool=0, auth=1),
    CLOSE: dict(member=0, owner=1, target=2, auth=3, pool=4),
    CHANGE: dict(pool=0, member=1, auth=2, owner=3, old=4, new=5),
    SLASH: dict(auth=0, pool=1, member=2),
    DECREASE: dict(auth=0, pool=1, member=2),
}
NSLOTS = {INIT_POOL: 8, FILL: 6, INIT_MINING: 4, DEPOSIT: 4, WITHDRAW: 4, CLAIM: 8, EXTEND: 4, DISTRIBUTE: 2, CLOSE: 5, CHANGE: 6, SLASH: 3, DECREASE: 3}
# arguments: (name, size); option handled separately
ARGS = {
    INIT_POOL: [('fill_authority', 32), ('distribute_authority', 32)], FILL: [('rewards', 8), ('ends', 8)], INIT_MINING: [('owner', 32)],
    DEPOSIT: [('amount', 8), ('period', 1), ('owner', 32), ('delegate', 32)], WITHDRAW: [('amount', 8), ('owner', 32), ('delegate', 32)], CLAIM: [],
    EXTEND: [('old_period', 1), ('new_period', 1), ('start', 8), ('base', 8), ('additional', 8), ('owner', 32), ('delegate', 32)],
    DISTRIBUTE: [], CLOSE: [], CHANGE: [('amount', 8), ('new_delegate', 32)],
    SLASH: [('owner', 32), ('native', 8), ('weighted', 8), ('has_date', 1)], DECREASE: [('owner', 32), ('penalty', 8)],
}
MULT = [0, 1, 2, 4, 6]
DAYS = [0, 5, 90, 180, 365]
def arg_offsets(tag):
    o, r = 1, {}
    for n, s in ARGS[tag]: r[n] = (o, s); o += s
    return r, o

def table(t, p):
    r = t[4]
    for i in (3, 2, 1, 0): r = ite(eq(p, i), t[i], r)
    return r
def day(t): return sub(t, mod(t, DAY))

class Rec:
    """field record of an account (pre, post or expected)"""
    def __init__(self, d): self.__dict__.update(d)
    def but(self, **k): return Rec({**self.__dict__, **k})

def settle(M, C, D):
    T = M.diffs; w0 = add(M.share, M.sfo); f = fold(T, C); v = C.idx(add(D, 1))
    a = add(f.A(w0, M.index, D), credit(v, f.I(M.index, D), w0, T.S(D)))
    return M.but(unclaimed=add(M.unclaimed, a), index=v, share=sub(M.share, T.S(D)), diffs=TTrunc(T, D))
def val0(T, k): return ite(T.has(k), T.val(k), 0)
def bump(T, k, x): return TIns(T, k, add(val0(T, k), x))
def lower(T, k, x): return TIns(T, k, sub(T.val(k), x))

class Exp:
    """expected post records and the conditions a successful run implies"""
    def __init__(self): self.rec = {}; self.must = []
    def req(self, why, c): self.must.append((why, c))

def deposit_part(e, P, M, D, amount, period):
    ws = mul(amount, table(MULT, period)); diff = sub(ws, amount)
    exp = add(D, mul(DAY, table(DAYS, period)))
    e.req('a real lockup period is given', and_(ne(period, 0), le(period, 4)))
    P = P.but(total=add(P.total, ws), diffs=bump(P.diffs, exp, diff))
    M = M.but(share=add(M.share, ws), diffs=bump(M.diffs, exp, diff))
    e.exp_day = exp
    return P, M

def expected(c):
    """c: case -> Exp with .rec[(role)] for changed accounts"""
    e = Exp(); t = c.tag; D = day(c.now); a = c.args
    pre = c.pre
    if t == INIT_POOL:
        P = pre('pool')
        e.rec['pool'] = P.but(deposit_authority=c.key('auth'), distribute_authority=a['distribute_authority'], fill_authority=a['fill_authority'], mint=c.key('mint'),
            index=0, total=0, ends=0, avail=0, bump=None, type=1, diffs=TEmpty(365), hist=TEmpty(1095), **{f'pad{i}': 0 for i in range(1, 7)})
        return e
    if t == INIT_MINING:
        M = pre('member')
        e.rec['member'] = M.but(pool=c.key('pool'), owner=a['owner'], mint=0, index=0, share=0, unclaimed=0, sfo=0, bump=None, type=2, diffs=TEmpty(50), **{f'pad{i}': 0 for i in range(1, 7)})
        return e
    P = pre('pool')
    if t == FILL:
        d = day(a['ends'])
        e.req('positive amount', lt(0, a['rewards'])); e.req('end day not before today', le(D, d)); e.req('end day not before the current end', le(P.ends, d))
        e.rec['pool'] = P.but(ends=d, avail=add(P.avail, a['rewards'])); return e
    if t == DISTRIBUTE:
        T = P.diffs; total = sub(P.total, T.S(D)); done = P.hist.has(D)
        amt = daily(P.avail, P.ends, c.now)
        e.req('weight left', and_(ne(P.total, 0), le(0, total), or_(done, lt(0, total))))
        idx = add(P.index, div(mul(P16, amt), total))
        e.amount = amt; e.done = done; e.left = total
        e.rec['pool'] = P.but(total=total, diffs=TTrunc(T, D), index=ite(done, P.index, idx), hist=tree_ite(done, P.hist, TIns(P.hist, D, idx)), avail=ite(done, P.avail, sub(P.avail, amt)))
        return e
    C = P.hist
    M = settle(pre('member'), C, D)
    e.settled = {'member': M}
    if t == CLAIM:
        e.rec['member'] = M.but(unclaimed=0); e.rec['pool'] = P; e.amount = M.unclaimed; return e
    if t == CLOSE:
        e.rec['pool'] = P; e.req('no unclaimed rewards', eq(M.unclaimed, 0)); e.req('no stake received', eq(M.sfo, 0)); return e
    if t == DECREASE:
        p = a['penalty']; T = M.diffs
        e.req('penalty within the weight', le(p, M.share))
        e.rec['member'] = M.but(share=sub(M.share, p), diffs=('waterfall', T, p)); e.rec['pool'] = P
        return e
    if t == CHANGE:
        x = a['amount']; total = P.total
        for role, sg in (('old', sub), ('new', add)):
            if not c.other(role): continue
            G = settle(pre(role), C, D); e.settled[role] = G
            total = sg(total, x)
            e.rec[role] = G.but(sfo=sg(G.sfo, x))
            if role == 'old': e.req('old delegate received that much', le(x, G.sfo))
        e.req('pool total covers it', or_(not c.other('old'), le(x, P.total)))
        e.rec['member'] = M; e.rec['pool'] = P.but(total=total)
        return e
    dg = 'delegate' if t in (DEPOSIT, WITHDRAW, EXTEND) and c.other('delegate') else None
    if dg: G = settle(pre(dg), C, D); e.settled[dg] = G
    if t == DEPOSIT:
        P, M = deposit_part(e, P, M, D, a['amount'], a['period'])
        if dg: e.rec[dg] = G.but(sfo=add(G.sfo, a['amount'])); P = P.but(total=add(P.total, a['amount']))
    elif t in (WITHDRAW, SLASH):
        x = a['amount'] if t == WITHDRAW else a['weighted']
        e.req('not more than the member has', le(x, M.share)); e.req('not more than the pool has', le(x, P.total))
        M = M.but(share=sub(M.share, x)); P = P.but(total=sub(sub(P.total, x), P.diffs.S(D)), diffs=TTrunc(P.diffs, D))
        e.req('pool total stays non-negative', le(0, P.total))
        if dg:
            e.req('not more than the delegate received', le(x, G.sfo))
            e.rec[dg] = G.but(sfo=sub(G.sfo, x)); P = P.but(total=sub(P.total, x)); e.req('pool covers the delegated part', le(0, P.total))
        if t == SLASH:
            h = eq(a['has_date'], 1); E = day(a['date']); y = sub(x, a['native'])
            for R, n in ((M, 'member'), (P, 'pool')):
                e.req(f'{n} has a reduction on that day', or_(not_(h), R.diffs.has(E)))
                e.req(f'{n} reduction covers it', or_(not_(h), le(y, R.diffs.val(E))))
            e.req('native not above weighted', or_(not_(h), le(0, y)))
            M = M.but(diffs=tree_ite(h, lower(M.diffs, E, y), M.diffs)); P = P.but(diffs=tree_ite(h, lower(P.diffs, E, y), P.diffs))
    elif t == EXTEND:
        op, b = a['old_period'], a['base']
        e.req('old period is a real one', and_(ne(op, 0), le(op, 4)))
        oldexp = ite(eq(op, 1), 0, add(day(a['start']), mul(DAY, table(DAYS, op))))
        live = lt(c.now, oldexp); old = mul(b, table(MULT, op)); y = sub(old, b)
        gone = ite(live, old, b)
        for R, n in ((M, 'member'), (P, 'pool')):
            e.req(f'unexpired stake has its reduction in the {n} schedule', or_(not_(live), and_(R.diffs.has(oldexp), le(y, R.diffs.val(oldexp)))))
        e.req('weights cover the old stake', and_(le(gone, M.share), le(gone, P.total)))
        M = M.but(share=sub(M.share, gone), diffs=tree_ite(live, lower(M.diffs, oldexp, y), M.diffs))
        P = P.but(total=sub(P.total, gone), diffs=tree_ite(live, lower(P.diffs, oldexp, y), P.diffs))
        x = add(b, a['additional'])
        if dg:
            e.req('delegate received the base amount', le(b, G.sfo))
            e.rec[dg] = G.but(sfo=add(sub(G.sfo, b), x)); P = P.but(total=add(sub(P.total, b), x))
        P, M = deposit_part(e, P, M, D, x, a['new_period'])
    e.rec['member'] = M; e.rec['pool'] = P
    return e

def daily(avail, ends, now):
    left = div(ite(le(now, ends), sub(ends, now), 0), DAY)
    return ite(eq(left, 0), avail, div(avail, left))

# ---------------------------------------------------------------- constructors of the program crate (public parameter order) and published flags
RENT_SYSVAR = int.from_bytes(bytes([6,167,213,23,25,44,92,81,33,140,201,76,61,74,241,127,88,218,238,8,155,161,253,68,227,219,217,138,0,0,0,0]), 'little')
CONSTS = {INIT_POOL: {5: RENT_SYSVAR, 6: SPL, 7: SYSTEM}, FILL: {5: SPL}, INIT_MINING: {3: SYSTEM}, CLAIM: {7: SPL}}
SIGNERS = {INIT_POOL: ['payer', 'auth'], FILL: ['auth'], INIT_MINING: ['payer'], DEPOSIT: ['auth'], WITHDRAW: ['auth'], CLAIM: ['owner', 'auth'], EXTEND: ['auth'], DISTRIBUTE: ['auth'], CLOSE: ['owner', 'auth'], CHANGE: ['auth', 'owner'], SLASH: ['auth'], DECREASE: ['auth']}
WRITTEN = {INIT_POOL: ['pool', 'vault', 'payer'], FILL: ['pool', 'vault', 'source'], INIT_MINING: ['member', 'payer'], DEPOSIT: ['pool', 'member', 'delegate'], WITHDRAW: ['pool', 'member', 'delegate'], CLAIM: ['vault', 'member', 'dest'],
    EXTEND: ['pool', 'member', 'delegate'], DISTRIBUTE: ['pool'], CLOSE: ['member', 'target'], CHANGE: ['pool', 'member', 'old', 'new'], SLASH: ['pool', 'member'], DECREASE: ['member']}
# '@role' = account parameter, else argument name
PARAMS = {
    INIT_POOL: ['@pool', '@mint', '@vault', '@payer', '@auth', 'fill_authority', 'distribute_authority'],
    FILL: ['@pool', '@mint', '@vault', '@auth', '@source', 'rewards', 'ends'], INIT_MINING: ['@pool', '@member', '@payer', 'owner'],
    DEPOSIT: ['@pool', '@member', '@auth', '@delegate', 'amount', 'period', 'owner', 'delegate'], WITHDRAW: ['@pool', '@member', '@auth', '@delegate', 'amount', 'owner', 'delegate'],
    CLAIM: ['@pool', '@mint', '@vault', '@member', '@owner', '@auth', '@dest'],
    EXTEND: ['@pool', '@member', '@auth', '@delegate', 'old_period', 'new_period', 'start', 'base', 'additional', 'owner', 'delegate'],
    DISTRIBUTE: ['@pool', '@auth'], CLOSE: ['@member', '@owner', '@target', '@auth', '@pool'],
    CHANGE: ['@pool', '@member', '@auth', '@owner', '@old', '@new', 'new_delegate', 'amount'],
    SLASH: ['@auth', '@pool', '@member', 'owner', 'native', 'weighted', 'date'], DECREASE: ['@auth', '@pool', '@member', 'owner', 'penalty'],
}
