"""The properties: what every successful run of the entry point must satisfy, as obligations over a case (symbolic or concrete).
Each generator yields (name, goal); goals are terms (symbolic case) or booleans (native run)."""
from terms import *
import trees
from trees import fold, credit, INF, TEmpty, TIns, TTrunc
import spec
from spec import *

# ---------------------------------------------------------------- helpers
def tree_eq(c, what, A, B, keys=None):
    for x in (c.keys(A, B) if keys is None else keys):
        yield f'{what}: same days', iff(A.has(x), B.has(x))
        yield f'{what}: same values', implies(and_(A.has(x), B.has(x)), eq(A.val(x), B.val(x)))
def tail(T, x): return sub(T.S(INF), T.S(sub(x, 1)))
def waterfall(c, what, T2, T, p):
    for x in c.keys(T, T2):
        yield f'{what}: same days', iff(T2.has(x), T.has(x))
        yield f'{what}: reductions from a day on', eq(tail(T2, x), tmax(0, sub(tail(T, x), p)))
def diffs_eq(c, what, R2, R):
    if isinstance(R.diffs, tuple): yield from waterfall(c, what, R2.diffs, R.diffs[1], R.diffs[2])
    else: yield from tree_eq(c, what, R2.diffs, R.diffs)
def rec_eq(c, role, exp, fields):
    post = c.post(role)
    if post is None: yield f'{role} account keeps its form', False; return
    for f in fields:
        if f == 'diffs': yield from diffs_eq(c, f'{role} schedule', post, exp)
        elif f == 'hist': yield from tree_eq(c, f'{role} index history', post.hist, exp.hist)
        elif getattr(exp, f) is not None: yield f'{role} {f}', eq(getattr(post, f), getattr(exp, f))
POOLF = [f for f in POOL] + ['diffs', 'hist']
MINEF = [f for f in MINE] + ['diffs']
def fields(role): return POOLF if role == 'pool' else MINEF
IDENT_P = ['deposit_authority', 'distribute_authority', 'fill_authority', 'mint', 'bump', 'type'] + [f'pad{i}' for i in range(1, 7)]
IDENT_M = ['pool', 'owner', 'mint', 'bump', 'type'] + [f'pad{i}' for i in range(1, 7)]
def musts(e):
    for why, g in e.must: yield f'refused unless: {why}', g
def members(c): return [r for r in ('member', 'delegate', 'old', 'new') if r in c.roles and (r == 'member' or c.other(r))]
def same(c, role, fs): yield from rec_eq(c, role, c.pre(role), fs)
SETTLING = [DEPOSIT, WITHDRAW, CLAIM, EXTEND, CHANGE, SLASH, DECREASE]
STAKE = [DEPOSIT, WITHDRAW, EXTEND, CHANGE, SLASH]
ALL = list(range(12))

def paid(c):
    """tokens transferred by the run"""
    a = 0
    for kind, x, _ in c.cpis():
        if kind == 'transfer': a = add(a, x['amount'])
    return a

# ---------------------------------------------------------------- the properties
def C01(c):
    c.need('hist')
    e = expected(c)
    for role in members(c):
        S = e.settled[role]; post = c.post(role)
        if c.tag == CLAIM: yield 'claim pays the settled rewards', eq(paid(c), S.unclaimed); yield 'nothing left unclaimed', eq(post.unclaimed, 0)
        else: yield f'{role}: credited exactly its share', eq(post.unclaimed, S.unclaimed)
        yield f'{role}: index position is the latest index', eq(post.index, S.index)
        for x in c.keys(post.diffs, S.diffs if not isinstance(S.diffs, tuple) else post.diffs):
            yield f'{role}: expiries due by today are gone', implies(le(x, day(c.now)), not_(post.diffs.has(x)))
        yield f'{role}: weight lowered by the due reductions', eq(post.share, e.rec[role].share if role in e.rec else S.share)
def C02(c):
    e = expected(c); P, Q = c.pre('pool'), c.post('pool'); X = e.rec['pool']; D = day(c.now)
    amt = sub(P.avail, Q.avail); done = e.done
    yield 'weight lowered by the reductions due', eq(Q.total, e.left)
    yield from tree_eq(c, 'pool schedule without the days due', Q.diffs, X.diffs)
    yield 'something is distributed only over weight', or_(done, lt(0, e.left))
    yield 'amount is not negative', le(0, amt)
    idx = add(P.index, div(mul(P16, amt), e.left))
    yield 'already distributed today: nothing is taken', implies(done, eq(amt, 0))
    yield 'already distributed today: index stays', implies(done, eq(Q.index, P.index))
    yield 'index raised by floor(precision * amount / weight)', implies(not_(done), eq(Q.index, idx))
    H = trees.tree_ite(done, P.hist, TIns(P.hist, D, idx))
    yield from tree_eq(c, 'index history', Q.hist, H)
    yield from same(c, 'pool', IDENT_P + ['ends'])
def C03(c):
    e = expected(c); P, Q = c.pre('pool'), c.post('pool')
    amt = sub(P.avail, Q.avail)
    yield 'amount is the even split', implies(not_(e.done), eq(amt, e.amount))
    yield 'never more than available', le(amt, P.avail)
def exact(c, skip=()):
    """everything the instruction is specified to do to the pool and members"""
    e = expected(c)
    yield from musts(e)
    for role in e.rec: yield from rec_eq(c, role, e.rec[role], [f for f in fields(role) if f not in skip])
def C04(c): c.need('hist'); yield from exact(c)
C05 = C06 = C07 = C08 = C09 = C04
def C09(c):
    c.need('hist')
    yield 'old and new delegate differ', ne(c.key('old'), c.key('new'))
    yield from exact(c)
def eff(R, x): return sub(R.total, R.diffs.S(x))
def weff(M, x): return add(sub(M.share, M.diffs.S(x)), M.sfo)
def C10(c):
    P, Q = c.pre('pool'), c.post('pool')
    D = day(c.now)
    ms = [r for r in c.roles if r in ('member', 'delegate', 'old', 'new') and (r == 'member' or c.other(r))]
    for x in c.days():
        h = le(D, x)
        if c.tag == DECREASE and not c.concrete:
            X = expected(c).rec['member'].diffs
            if isinstance(X, tuple):
                for y in (INF, x, -1):
                    yield 'lemma: reductions from a day on', implies(h, eq(tail(c.post('member').diffs, add(y, 1)), tmax(0, sub(tail(X[1], add(y, 1)), X[2]))))
        if c.tag == INIT_POOL:
            yield 'a new pool has no weight', implies(h, eq(eff(Q, x), 0)); continue
        dp = sub(eff(Q, x), eff(P, x))
        if c.tag in STAKE:
            dm = 0
            for r in ms: dm = add(dm, sub(weff(c.post(r), x), weff(c.pre(r), x)))
            yield 'pool weight moves with the members', implies(h, eq(dp, dm))
        else:
            yield 'pool weight stays', implies(h, eq(dp, 0))
            for r in ms:
                if c.tag == CLOSE: continue
                if c.tag == INIT_MINING: yield 'a new member has no weight', implies(h, eq(weff(c.post(r), x), 0))
                else: yield f'{r} weight is not raised', implies(h, le(weff(c.post(r), x), weff(c.pre(r), x)))
def pend(c, M, C):
    """not yet settled rewards"""
    D = day(c.now); w0 = add(M.share, M.sfo); T = M.diffs
    f = fold(T, C); v = C.idx(add(D, 1))
    return add(f.A(w0, M.index, D), credit(v, f.I(M.index, D), w0, T.S(D)))
def C11(c):
    c.need('hist')
    D = day(c.now); C = c.pre('pool').hist
    yield from tree_eq(c, 'index history', c.post('pool').hist, C)
    for r in members(c):
        M, N = c.pre(r), c.post(r)
        for g in c.fold_lemma(N.diffs, C, D): yield f'{r}: settled schedule starts after today', g
        yield f'{r}: credited plus pending rewards stay the same', eq(add(N.unclaimed, pend(c, N, C)), add(M.unclaimed, pend(c, M, C)))
def C12(c):
    P = c.pre('pool') if 'pool' in c.roles else None
    if c.tag == INIT_POOL: yield 'a new pool has nothing to give', and_(eq(c.post('pool').index, 0), eq(c.post('pool').avail, 0)); return
    Q = c.post('pool')
    if c.tag == DISTRIBUTE:
        e = expected(c); d = sub(Q.index, P.index); amt = sub(P.avail, Q.avail)
        yield 'tokens taken are not negative', le(0, amt)
        yield 'index never falls', le(0, d)
        if c.concrete: yield 'index step times weight is covered by the amount', le(mul(d, e.left), mul(P16, amt))
        else:
            q = div(mul(P16, amt), e.left)
            yield 'index step is at most floor(precision * amount / weight)', or_(le(d, q), eq(d, 0))
        yield 'weight the index step is computed for covers the weight left', le(e.left, Q.total)
        for r in c.keys(P.hist, Q.hist):
            yield 'the history records only indices reached', implies(Q.hist.has(r), or_(P.hist.has(r), le(Q.hist.val(r), Q.index)))
            yield 'recorded indices stay', implies(and_(P.hist.has(r)), and_(Q.hist.has(r), eq(Q.hist.val(r), P.hist.val(r))))
        return
    c.need('hist')
    yield 'index moves only in a distribution', eq(Q.index, P.index)
    yield from tree_eq(c, 'index history', Q.hist, P.hist)
    if c.tag == FILL: yield 'available tokens grow by what was paid in', eq(sub(Q.avail, P.avail), paid(c)); return
    yield 'available tokens move only in fills and distributions', eq(Q.avail, P.avail)
    if c.tag == INIT_MINING: yield 'a new member is owed nothing', and_(eq(c.post('member').unclaimed, 0), eq(add(c.post('member').share, c.post('member').sfo), 0)); return
    if c.tag == CLOSE: return
    for r in members(c):
        M, N = c.pre(r), c.post(r); S = settle(M, P.hist, day(c.now))
        pay = paid(c) if c.tag == CLAIM else 0
        yield f'{r}: not credited more than the floors of its stretches', le(add(N.unclaimed, pay), S.unclaimed)
        yield f'{r}: what was credited is never credited again', or_(le(S.index, N.index), and_(eq(N.index, M.index), eq(N.unclaimed, M.unclaimed), eq(N.share, M.share), eq(N.sfo, M.sfo)))
def C13(c):
    c.need('hist')
    e = expected(c); S = e.settled['member']; P, M = c.pre('pool'), c.pre('member')
    cp = c.cpis()
    yield 'at most one call', len(cp) <= 1
    if not cp: yield 'no transfer only when nothing is to pay', eq(S.unclaimed, 0)
    for kind, a, sg in cp:
        yield 'the call is a token transfer', kind == 'transfer'
        if kind != 'transfer': continue
        yield 'a transfer only when there is something to pay', lt(0, a['amount'])
        yield 'pays exactly the settled rewards', eq(a['amount'], S.unclaimed)
        yield 'by the token program', eq(a['program'], SPL)
        yield 'from the vault', eq(a['src'], c.pda((5, int.from_bytes(b'vault', 'little')), (32, c.key('pool')), (32, c.key('mint')), (1, P.bump)))
        yield 'to the given token account', eq(a['to'], c.key('dest'))
        yield 'owned by the token program', eq(c.owner('dest'), SPL)
        yield "of the member's owner", and_(eq(c.token_owner('dest'), M.owner), eq(c.key('owner'), M.owner))
        yield 'under the deposit authority', eq(a['authority'], P.deposit_authority)
        yield 'without derived signers', len(sg) == 0
    r = c.ret()
    yield 'returns the amount', r is not None and r[0] == 8 and eq(r[1], S.unclaimed)
    yield from rec_eq(c, 'member', e.rec['member'], MINEF)
    yield from rec_eq(c, 'pool', P, POOLF)
def C14(c):
    cp = c.cpis()
    yield 'exactly one call', len(cp) == 1
    for kind, a, sg in cp:
        yield 'the call is a token transfer', kind == 'transfer'
        if kind != 'transfer': continue
        yield 'of exactly the amount', eq(a['amount'], c.args['rewards'])
        yield 'by the token program', eq(a['program'], SPL)
        yield 'from the source', eq(a['src'], c.key('source'))
        yield 'to the vault', eq(a['to'], c.pda((5, int.from_bytes(b'vault', 'little')), (32, c.key('pool')), (32, c.key('mint')), (1, c.pre('pool').bump)))
        yield 'under the fill authority', eq(a['authority'], c.pre('pool').fill_authority)
        yield 'without derived signers', len(sg) == 0
    yield from exact(c)
def signed(c, key): return or_(*[and_(eq(c.slot(i)['key'], key), c.slot(i)['signer']) for i in range(c.nslots())])
def C15(c):
    t = c.tag
    if t == INIT_POOL:
        yield 'the deposit authority signed', signed(c, c.post('pool').deposit_authority)
        yield 'the payer signed', signed(c, c.key('payer'))
        for kind, a, _ in c.cpis():
            if kind == 'create_account': yield 'the payer pays', eq(a['src'], c.key('payer'))
        return
    if t == INIT_MINING:
        yield 'the payer signed', signed(c, c.key('payer'))
        for kind, a, _ in c.cpis():
            if kind == 'create_account': yield 'the payer pays', eq(a['src'], c.key('payer'))
        return
    P = c.pre('pool')
    if t == FILL: yield 'the fill authority signed', signed(c, P.fill_authority); return
    if t == DISTRIBUTE: yield 'the distribute authority signed', signed(c, P.distribute_authority); return
    yield 'the deposit authority signed', signed(c, P.deposit_authority)
    if t in (CHANGE, CLAIM, CLOSE): yield "the member's owner signed", signed(c, c.pre('member').owner)
MINING = int.from_bytes(b'mining', 'little')
def C16(c):
    t = c.tag
    yield 'the pool is owned by the program', eq(c.owner('pool'), c.prog)
    if t in (INIT_POOL, DISTRIBUTE, INIT_MINING): return
    P = c.pre('pool')
    if t in (FILL, CLAIM):
        yield 'the vault lies at its address', eq(c.key('vault'), c.pda((5, int.from_bytes(b'vault', 'little')), (32, c.key('pool')), (32, c.key('mint')), (1, P.bump)))
    if t == FILL: return
    M = c.pre('member')
    yield 'the member is owned by the program', eq(c.owner('member'), c.prog)
    yield 'the member records the pool', eq(M.pool, c.key('pool'))
    own = c.key('owner') if 'owner' in c.roles else c.args['owner']
    yield 'the member records the owner', eq(M.owner, own)
    if t in SETTLING and t != CLAIM:
        yield 'the member lies at its address', eq(c.key('member'), c.pda((6, MINING), (32, own), (32, c.key('pool')), (1, M.bump)))
    for r in ('delegate', 'new', 'old'):
        if r in c.roles and c.other(r):
            G = c.pre(r)
            yield f'{r} is owned by the program', eq(c.owner(r), c.prog)
            who = {'delegate': lambda: c.args['delegate'], 'new': lambda: c.args['new_delegate'], 'old': lambda: G.owner}[r]()
            yield f'{r} lies at its address', eq(c.key(r), c.pda((6, MINING), (32, who), (32, c.key('pool')), (1, G.bump)))
def fresh_tree(c, what, T, init):
    for x in c.keys(T): yield f'{what} is empty', not_(T.has(x))
    yield f'{what} is ready for use', init
def C17(c):
    P, Q = c.pre('pool'), c.post('pool')
    yield 'pool is owned by the program', eq(c.owner('pool'), c.prog)
    yield 'pool has exactly the pool size', eq(c.length('pool'), POOL_LEN)
    yield 'pool was not initialised before', ne(P.type, 1)
    pda = c.pda((5, int.from_bytes(b'vault', 'little')), (32, c.key('pool')), (32, c.key('mint')), (1, Q.bump))
    yield 'vault lies at the address of the recorded bump', eq(c.key('vault'), pda)
    cp = c.cpis()
    yield 'creates the vault and initialises it', [k for k, _, _ in cp] == ['create_account', 'init_account']
    for kind, a, sg in cp:
        if kind == 'create_account':
            yield 'created account is the vault', eq(a['to'], c.key('vault')); yield 'vault is a token account', and_(eq(a['owner'], SPL), eq(a['space'], 165))
            yield 'vault is rent exempt', le(c.rent(165), a['lamports'])
            yield 'vault signs for its creation', len(sg) == 1 and eq(sg[0], c.key('vault'))
        if kind == 'init_account':
            yield 'initialised account is the vault', eq(a['account'], c.key('vault')); yield 'by the token program', eq(a['program'], SPL)
            yield 'for the given mint', eq(a['mint'], c.key('mint')); yield 'owned by the deposit authority', eq(a['owner'], c.key('auth'))
            yield 'no derived signer', len(sg) == 0
    yield 'the mint belongs to the token program', eq(c.owner('mint'), SPL)
    yield 'the deposit authority signed', c.role_slot('auth')['signer']
    yield from rec_eq(c, 'pool', expected(c).rec['pool'], list(POOL))
    yield from fresh_tree(c, 'schedule', Q.diffs, Q.init_diffs)
    yield from fresh_tree(c, 'history', Q.hist, Q.init_hist)
def C18(c):
    N = c.post('member')
    if N is None: yield 'the member account has the member form', False; return
    yield 'account had no data', eq(c.length('member'), 0)
    pda = c.pda((6, MINING), (32, c.args['owner']), (32, c.key('pool')), (1, N.bump))
    yield 'account lies at the address of the recorded bump', eq(c.key('member'), pda)
    cp = c.cpis()
    yield 'creates exactly one account', [k for k, _, _ in cp] == ['create_account']
    for kind, a, sg in cp:
        if kind != 'create_account': continue
        yield 'created account is the member account', eq(a['to'], c.key('member')); yield 'of the member size', eq(a['space'], MINE_LEN)
        yield 'owned by the program', eq(a['owner'], c.prog); yield 'rent exempt', le(c.rent(MINE_LEN), a['lamports'])
        yield 'member address signs for its creation', len(sg) == 1 and eq(sg[0], c.key('member'))
    yield 'pool is owned by the program', eq(c.owner('pool'), c.prog)
    yield from rec_eq(c, 'member', expected(c).rec['member'], list(MINE))
    yield from fresh_tree(c, 'schedule', N.diffs, N.init_diffs)
    yield from c.frame('pool', 'pool')
def others_stay(c):
    i, j = c.roles['member'], c.roles['target']
    ks = [c.slot(i)['key'], c.slot(j)['key']]
    for k in range(c.nslots()):
        if k not in (i, j): yield 'lamports of the others stay', or_(*[eq(c.slot(k)['key'], x) for x in ks], eq(c.lam_post(k), c.lam_pre(k)))
def C19(c):
    c.need('hist')
    e = expected(c); M = c.pre('member')
    yield "settled against the member's own pool", eq(M.pool, c.key('pool'))
    yield from musts(e)
    i, j = c.roles['member'], c.roles['target']
    yield 'all lamports go to the target', eq(c.lam_post(j), add(c.lam_pre(j), c.lam_pre(i)))
    yield 'the account keeps no lamports', eq(c.lam_post(i), 0)
    yield from others_stay(c)
    yield 'the data is wiped', c.wiped('member')
    yield from rec_eq(c, 'pool', c.pre('pool'), POOLF)
def C20(c):
    e = expected(c); D = day(c.now)
    if c.tag == DISTRIBUTE:
        yield "today's index is in the history", c.post('pool').hist.has(D); return
    x = e.exp_day
    yield 'the pool schedule has the new day', c.post('pool').diffs.has(x)
    yield 'the member schedule has the new day', c.post('member').diffs.has(x)
    for role in ('pool', 'member'):
        T, U = c.pre(role).diffs, c.post(role).diffs
        for k in c.keys(T, U): yield f'{role}: no other future day is lost', implies(and_(lt(D, k), T.has(k)), U.has(k))
def C26(c):
    if c.tag == INIT_POOL:
        Q = c.post('pool'); yield 'index is zero', eq(Q.index, 0)
        for x in c.keys(Q.hist): yield 'history is empty', not_(Q.hist.has(x))
        return
    P, Q = c.pre('pool'), c.post('pool'); D = day(c.now)
    c.need('hist')
    if c.tag != DISTRIBUTE:
        yield 'index stays', eq(Q.index, P.index)
        yield from tree_eq(c, 'history', Q.hist, P.hist); return
    for x in c.keys(P.hist, Q.hist):
        yield 'recorded days stay', implies(P.hist.has(x), Q.hist.has(x))
        yield 'recorded indices stay', implies(P.hist.has(x), eq(Q.hist.val(x), P.hist.val(x)))
        yield 'new records are for today', implies(and_(Q.hist.has(x), not_(P.hist.has(x))), eq(x, D))
        yield 'the new index is not below any recorded one', implies(P.hist.has(x), le(P.hist.val(x), Q.hist.idx(INF)))
    yield "the pool's index is the latest recorded one", eq(Q.index, Q.hist.idx(INF))
def C27(c):
    t = c.tag
    if t == INIT_POOL: return
    f = list(IDENT_P)
    if t != FILL: f += ['ends']
    if t not in (FILL, DISTRIBUTE): f += ['avail', 'index', 'hist']
    if t in (FILL, CLAIM, CLOSE, DECREASE): f += ['total', 'diffs']
    if t == FILL: f += ['index', 'hist']
    if t in (CHANGE, ): f += ['diffs']
    if t == INIT_MINING: yield from c.frame('pool', 'pool')
    else: yield from rec_eq(c, 'pool', c.pre('pool'), f)
    for r in [r for r in ('member', 'delegate', 'old', 'new') if r in c.roles and (r == 'member' or c.other(r))]:
        if r == 'member' and t in (CLOSE, INIT_MINING): continue
        f = list(IDENT_M) + (['sfo'] if r == 'member' else [])
        yield from rec_eq(c, r, c.pre(r), f)
    if t in SETTLING:
        c.need('hist'); e = expected(c)
        for r in members(c):
            S = e.settled[r]
            if r == 'member' and t == CLAIM: continue
            yield f'{r}: unclaimed rewards change only by settlement', eq(c.post(r).unclaimed, S.unclaimed)
            if r != 'member':
                yield f'{r}: own weight changes only by settlement', eq(c.post(r).share, S.share)
                yield from tree_eq(c, f'{r} schedule', c.post(r).diffs, S.diffs)
    for i in range(min(c.nslots(), NSLOTS[t])):
        if i in [c.roles[r] for r in ('pool', 'member', 'delegate', 'old', 'new', 'vault', 'source', 'dest') if r in c.roles]: continue
        al = or_(*[eq(c.slot(i)['key'], c.key(r)) for r in ('pool', 'member', 'delegate', 'old', 'new') if r in c.roles])
        for n, g in c.frame_slot(i, f'account {i}'): yield n, or_(al, g)
def C28(c):
    t = c.tag; cp = c.cpis()
    kinds = [k for k, _, _ in cp]
    if t == INIT_POOL: yield 'only the vault is created', kinds == ['create_account', 'init_account']
    elif t == INIT_MINING: yield 'only the member account is created', kinds == ['create_account']
    elif t == CLAIM: yield 'at most one transfer', kinds in ([], ['transfer'])
    elif t == FILL: yield 'exactly one transfer', kinds == ['transfer']
    else: yield 'no call to another program', kinds == []
    for kind, a, sg in cp:
        if kind == 'transfer':
            yield 'token program', eq(a['program'], SPL)
            if t == CLAIM: yield 'from the vault to the owner', and_(eq(a['src'], c.key('vault')), eq(a['to'], c.key('dest')), eq(c.token_owner('dest'), c.pre('member').owner))
            elif t == FILL: yield 'from the source to the vault', and_(eq(a['src'], c.key('source')), eq(a['to'], c.key('vault')))
            if t in (CLAIM, FILL): yield 'the vault is the derived one', eq(c.key('vault'), c.pda((5, int.from_bytes(b'vault', 'little')), (32, c.key('pool')), (32, c.key('mint')), (1, c.pre('pool').bump)))
            yield 'no derived signer', len(sg) == 0
        elif kind == 'create_account':
            role = 'vault' if t == INIT_POOL else 'member'
            if role not in c.roles: continue
            yield 'creates the specified account', eq(a['to'], c.key(role))
            yield 'signs only for that account', len(sg) == 1 and eq(sg[0], c.key(role))
            Q = c.post('pool' if t == INIT_POOL else 'member')
            if t == INIT_POOL: yield 'with its seeds', eq(sg[0] if sg else -1, c.pda((5, int.from_bytes(b'vault', 'little')), (32, c.key('pool')), (32, c.key('mint')), (1, Q.bump)))
            else: yield 'with its seeds', eq(sg[0] if sg else -1, c.pda((6, MINING), (32, c.args['owner']), (32, c.key('pool')), (1, Q.bump)))
        else: yield 'no derived signer', len(sg) == 0
    if t not in (CLOSE, INIT_POOL, INIT_MINING): yield 'lamports stay', and_(*[eq(c.lam_post(i), c.lam_pre(i)) for i in range(c.nslots())])
    if t == CLOSE:
        i, j = c.roles['member'], c.roles['target']
        yield 'lamports are conserved', eq(add(c.lam_post(i), c.lam_post(j)), add(c.lam_pre(i), c.lam_pre(j)))
        yield from others_stay(c)
def C22(c):
    """native oracle (the symbolic check uses the machine-arithmetic conditions of the verifier)"""
    if c.concrete:
        c.need('hist')
        if c.tag == CLOSE: return
        yield from exact(c)
    else:
        over = False
        if c.tag == DISTRIBUTE: over = lt(c.pre('pool').ends, add(c.now, DAY))      # a period that has ended counts as zero days left
        for n, g in c.lossless(): yield n, or_(over, g) if 'saturating_sub' in n else g
def C31(c):
    """the accounting rules are kept: of the accounts of the instruction, and of any other member by monotony of the indices"""
    t = c.tag; D = day(c.now); Q = c.post('pool')
    later = lambda T, x: implies(T.has(x), lt(D, x))
    if t == INIT_POOL:
        yield 'a new pool: nothing scheduled', and_(eq(Q.total, 0), eq(Q.diffs.S(INF), 0), eq(Q.index, 0))
        for x in c.keys(Q.hist): yield 'a new pool: no history', not_(Q.hist.has(x))
        return
    c.need('hist')
    P = c.pre('pool'); a = c.args; xs = [*c.days(), D, INF]
    ms = members(c)
    pre = [] if t == INIT_MINING else [c.pre(r) for r in ms]; post = [] if t == CLOSE else [(r, c.post(r)) for r in ms]
    cover = lambda R, Ms, x: le(tsum(weff(M, x) for M in Ms), eff(R, x))
    H = [le(P.diffs.S(INF), P.total)] + [le(M.diffs.S(INF), M.share) for M in pre] + [implies(le(D, x), cover(P, pre, x)) for x in xs]
    if pre:     # the stake taken out is not scheduled to shrink any more (beyond the reduction taken out with it)
        free = sub(pre[0].share, pre[0].diffs.S(INF))
        if t == WITHDRAW: H.append(le(a['amount'], free))
        elif t == SLASH: H.append(le(ite(eq(a['has_date'], 1), a['native'], a['weighted']), free))
    H = and_(*H)
    if t == DECREASE and not c.concrete:
        X = expected(c).rec['member'].diffs
        if isinstance(X, tuple):
            for y in (*xs, -1): yield 'lemma: reductions from a day on', implies(le(-1, y), eq(tail(c.post('member').diffs, add(y, 1)), tmax(0, sub(tail(X[1], add(y, 1)), X[2]))))
    for r, N in post:
        yield f'{r}: reductions within the weight', implies(H, le(N.diffs.S(INF), N.share))
        yield f'{r}: weight in range', implies(H, le(add(N.share, N.sfo), U64))
        yield f'{r}: position not ahead of the index', le(N.index, Q.hist.idx(add(D, 1)))
        for x in c.keys(N.diffs): yield f'{r}: nothing scheduled that is due', later(N.diffs, x)
    for x in xs: yield 'the pool covers its members on any day', implies(and_(H, le(D, x)), cover(Q, [N for _, N in post], x))
    yield 'pool: reductions within the total', implies(H, le(Q.diffs.S(INF), Q.total))
    for x in c.keys(P.hist, Q.hist):
        yield 'no record is dated in the future', implies(Q.hist.has(x), le(x, D))
        yield 'no recorded index above the latest', implies(Q.hist.has(x), le(Q.hist.val(x), Q.index))
        yield 'no index reading falls', le(P.hist.idx(x), Q.hist.idx(x))
        yield 'records after it are not lower', implies(and_(Q.hist.has(x), le(x, D)), le(Q.hist.val(x), Q.hist.idx(add(D, 1))))
EFFECT = {INIT_POOL: 'C17', FILL: 'C14', INIT_MINING: 'C18', DEPOSIT: 'C04', WITHDRAW: 'C05', CLAIM: 'C13', EXTEND: 'C06', DISTRIBUTE: 'C02', CLOSE: 'C19', CHANGE: 'C09', SLASH: 'C07', DECREASE: 'C08'}
def C23(c):
    """the whole effect of the instruction named by the bytes: decides when the dispatcher's shape gives no answer"""
    yield from globals()[EFFECT[c.tag]](c)

TAGS = {'C01': SETTLING, 'C02': [DISTRIBUTE], 'C03': [DISTRIBUTE], 'C04': [DEPOSIT], 'C05': [WITHDRAW], 'C06': [EXTEND], 'C07': [SLASH], 'C08': [DECREASE], 'C09': [CHANGE],
    'C10': ALL, 'C11': STAKE + [DECREASE], 'C12': ALL, 'C13': [CLAIM], 'C14': [FILL], 'C15': ALL, 'C16': ALL, 'C17': [INIT_POOL], 'C18': [INIT_MINING], 'C19': [CLOSE],
    'C20': [DEPOSIT, EXTEND, DISTRIBUTE], 'C22': ALL, 'C26': ALL, 'C27': ALL, 'C28': ALL, 'C31': ALL}
def obligations(pid, c): return globals()[pid](c)
