"""The other half of the contracts: from a well-formed state, with the right accounts and signatures and the specified conditions met,
no path of the entry point fails (error, panic or refused cross-program call) and every loop on it ends.

The conditions are written once, over an abstract case: as hypotheses of the proof obligations and as run-time oracle of native runs."""
import sys, time, itertools
import z3
from terms import *
from values import *
import trees, models, interp, world, spec, sym
from trees import fold, credit, INF
from spec import *

MINING = int.from_bytes(b'mining', 'little'); VAULT = int.from_bytes(b'vault', 'little')
I128 = 2**128 - 1

class Pre(sym.SymCase):
    """the inputs of a run not yet executed; `reps` fixes which of two positions holding one account names it"""
    def __init__(self, w, st, tag, others, reps):
        super().__init__(w, st, tag, others); self.reps = reps
        self.ixlen = st.mem[('IX',)].len
    def rep(self, i): return self.reps.get(i, i)
    def canonical(self, *ch):
        ch = models.norm_chunks(ch); shape = tuple(l for l, _ in ch)
        bf = z3.Function('bump_' + '_'.join(map(str, shape)), *([Z]*(len(shape)+2)))
        return bf(*[zi(v) for _, v in ch], zi(self.w.program_id))
    def zeroed(self, r): return self.st.mem[('D', self.roles[r])].zero
    def token(self, r): return bvar(f'spl_initialised_D{self.rep(self.roles[r])}')
    def token_owner(self, r): return leaf_var(f'D{self.rep(self.roles[r])}', 32, 32)
    def balance(self, r): return leaf_var(f'D{self.rep(self.roles[r])}', 64, 8)
    def token_mint(self, r): return leaf_var(f'D{self.rep(self.roles[r])}', 0, 32)
    def distinct(self, xs): return z3.Distinct(*[zi(x) for x in xs]) if len(xs) > 1 else True
    def history(self): 
        self.need('hist'); return and_(*self.hyp)
    def settled(self, r, M, C, D): return and_(*settled_rule(var(f'settled_{r}'), M, C, D))
    def range_(self, M, C, D): return and_(*bounds(M, C, D))

def settled_rule(d0, M, C, D):
    """there is a day up to which the member is settled: later than it all its reductions, not ahead of it its index position"""
    rng(d0, 62); x = z3.Int('x'); T = M.diffs
    return [le(d0, D), le(M.index, C.idx(add(d0, 1))), z3.ForAll([x], z3.Implies(T.h(x), zi(d0) < x), patterns=[T.h(x)])]
def bounds(M, C, D):
    """number range of the settlement: what is credited for the whole time at the full weight fits; with what the lemma unit derives from that"""
    T = M.diffs; w0 = add(M.share, M.sfo); f = fold(T, C); i0 = M.index
    f.ground.append((w0, i0))
    top = C.idx(INF); a, b, x, i = z3.Ints('a b x i')
    A = f.A_(zi(w0), zi(i0), x)
    out = [zb(le(add(M.unclaimed, div(mul(sub(top, i0), w0), P16)), U64))]
    # consequences (lemmas 'settlement: ...')
    out.append(z3.ForAll([a, b], z3.Implies(z3.And(0 <= a, a <= zi(sub(top, i0)), 0 <= b, b <= zi(w0)), mulU(a, b) <= I128), patterns=[mulU(a, b)]))
    out.append(z3.ForAll([x], z3.And(A >= 0, A + zi(M.unclaimed) <= U64), patterns=[A]))
    v = C.idx(add(D, 1))
    out.append(z3.ForAll([x], z3.Implies(x <= zi(D), zi(M.unclaimed) + A + zi(credit(v, f.I(i0, x), w0, T.S(x))) <= U64), patterns=[A]))
    out.append(z3.ForAll([i, x], z3.Implies(T.h(x), f.I_(i, x) == zi(C.idx(x))), patterns=[f.I_(i, x)]))
    return out
def member_rules(c, r, M, C, D):
    """the accounting rules of one member"""
    w0 = add(M.share, M.sfo)
    yield f'{r}: reductions within the weight', le(M.diffs.S(INF), M.share)
    yield f'{r}: weight in range', le(w0, U64)
    yield f'{r}: settled up to some day', c.settled(r, M, C, D)
    yield f'{r}: credits in range', c.range_(M, C, D)

def member_roles(c): return [r for r in ('member', 'delegate', 'old', 'new') if r in c.roles and (r == 'member' or c.other(r))]

def conditions(c):
    """(what, condition): environment, accounts, accounting rules, conditions of the instruction, number range, free slots"""
    tag = c.tag; R = c.roles; a = c.args; n = NSLOTS[tag]
    yield 'enough accounts', le(n, c.nacc)
    off, end = arg_offsets(tag)
    if tag == SLASH: yield 'instruction length', and_(le(a['has_date'], 1), eq(c.ixlen, ite(eq(a['has_date'], 1), end + 8, end)))
    else: yield 'instruction length', eq(c.ixlen, end)
    K = c.key
    for r in SIGNERS[tag]: yield f'{r} signs', c.slot(R[r])['signer']
    for r in WRITTEN[tag]: yield f'{r} writable', c.slot(R[r])['writable']
    for i, k in CONSTS.get(tag, {}).items(): yield f'account {i} is the well-known one', eq(c.slot(i)['key'], k)
    deleg = [r for r in ('delegate', 'old', 'new') if r in R]
    data = [r for r in ('pool', 'member', 'vault', 'source', 'dest', 'target') if r in R] + [r for r in deleg if c.other(r)]
    yield 'the accounts that are written are different accounts', c.distinct([K(r) for r in data])
    if tag == CHANGE: yield 'old and new delegate differ', ne(K('old'), K('new'))
    taken = [R[r] for r in data + deleg]
    for i in range(n):
        if i not in taken: yield f'account {i} is none of those', and_(*[ne(c.slot(i)['key'], K(r)) for r in data if r != 'target'])
    yield 'pool account', and_(eq(c.owner('pool'), c.prog), eq(c.length('pool'), POOL_LEN))
    P = c.pre('pool')
    if tag == INIT_POOL:
        yield 'fresh pool account: all zero', c.zeroed('pool'); yield 'a mint', eq(c.owner('mint'), SPL); yield 'system-owned payer', eq(c.owner('payer'), SYSTEM)
        yield 'vault does not exist', and_(eq(c.length('vault'), 0), eq(c.owner('vault'), SYSTEM))
        ch = [(5, VAULT), (32, K('pool')), (32, K('mint'))]
    else: yield 'initialised pool', eq(P.type, 1)
    if tag == INIT_MINING:
        yield 'member account does not exist', and_(eq(c.length('member'), 0), eq(c.owner('member'), SYSTEM))
        ch = [(6, MINING), (32, a['owner']), (32, K('pool'))]
    if tag in (INIT_POOL, INIT_MINING):
        b = c.canonical(*ch)
        yield 'canonical address', and_(le(0, b), le(b, 255), c.derived('vault' if tag == INIT_POOL else 'member', *ch, (1, b)))
        return
    yield 'the right authority', eq(K('auth'), P.fill_authority if tag == FILL else P.distribute_authority if tag == DISTRIBUTE else P.deposit_authority)
    def token(r, owner):
        yield f'{r} is a token account', and_(eq(c.owner(r), SPL), eq(c.length(r), 165), c.token(r))
        yield f'{r} has the right owner', eq(c.token_owner(r), owner)
    if tag in (FILL, CLAIM):
        yield 'the mint', and_(eq(P.mint, K('mint')), eq(c.owner('mint'), SPL)); yield 'the vault', c.derived('vault', (5, VAULT), (32, K('pool')), (32, K('mint')), (1, P.bump))
        yield from token('vault', P.deposit_authority)
        if tag == FILL: yield from token('source', K('auth')); yield 'same mint', eq(c.token_mint('source'), c.token_mint('vault'))
    D = day(c.now); C = P.hist
    yield 'index history', c.history()
    ms = []
    for r in member_roles(c):
        yield f'{r} account', and_(eq(c.owner(r), c.prog), eq(c.length(r), MINE_LEN))
        M = c.pre(r); ms.append(M)
        yield f'{r} of the pool', and_(eq(M.type, 2), eq(M.pool, K('pool')))
        who = K('owner') if 'owner' in R and r == 'member' else a['owner'] if r == 'member' and 'owner' in a else a['delegate'] if r == 'delegate' else a['new_delegate'] if r == 'new' else M.owner
        yield f'{r} has the named owner', eq(M.owner, who); yield f'{r} address', c.derived(r, (6, MINING), (32, who), (32, K('pool')), (1, M.bump))
        if r == 'member' and tag == CLAIM: yield from token('dest', M.owner); yield 'same mint', eq(c.token_mint('dest'), c.token_mint('vault'))
        yield from member_rules(c, r, M, C, D)
    yield 'pool: reductions within the total', le(P.diffs.S(INF), P.total)
    for x in (D, INF): yield 'pool: covers its members', le(tsum(add(sub(M.share, M.diffs.S(x)), M.sfo) for M in ms), sub(P.total, P.diffs.S(x)))
    e = expected(c)
    for why, g in e.must: yield why, g
    for r, X in e.rec.items():
        for f, m in (('share', U64), ('total', U64), ('sfo', U64), ('unclaimed', U64), ('avail', U64), ('index', I128)):
            v = getattr(X, f, None)
            if v is not None: yield f'{r}: {f} stays in range', and_(le(0, v), le(v, m))
        yield f'{r}: reductions stay in range', and_(*fits(X.diffs))
    if tag in (FILL, CLAIM):
        x = a['rewards'] if tag == FILL else e.amount; src, dst = ('source', 'vault') if tag == FILL else ('vault', 'dest')
        yield 'the tokens are there', le(x, c.balance(src)); yield 'the balance stays in range', le(add(c.balance(dst), x), U64)
    if tag in (DEPOSIT, EXTEND):
        for r, cap in (('pool', 365), ('member', 50)): T = c.pre(r).diffs; yield f'{r}: the day is there or a slot free', or_(T.has(e.exp_day), lt(T.size(), cap))
    if tag == DISTRIBUTE: yield 'the day is recorded or a slot free', or_(C.has(D), lt(C.size(), C.cap))
    if tag == CLOSE: yield 'target of the lamports', and_(eq(c.owner('target'), SYSTEM), le(add(c.lam_pre(R['member']), c.lam_pre(R['target'])), U64))

def fits(T):
    if isinstance(T, trees.TIns): yield le(T.v, U64); yield from fits(T.t)
    elif isinstance(T, trees.TIte):
        for g in fits(T.a): yield implies(T.c, g)
        for g in fits(T.b): yield implies(not_(T.c), g)

def splits(tag):
    """delegate positions filled by other accounts or by the member's own"""
    ds = [r for r in ('delegate', 'old', 'new') if r in ROLES[tag]]
    for o in itertools.product((True, False), repeat=len(ds)):
        if tag == CHANGE and not any(o): continue
        yield dict(zip(ds, o))

def hypotheses(w, st, tag, others, swap=None):
    R = ROLES[tag]; H = []; names = []
    w.slot(NSLOTS[tag] - 1)
    own = [r for r, o in others.items() if not o]
    for r in own: H.append(zb(eq(w.slot(R[r])['key'], w.slot(R['member'])['key'])))
    for r, o in others.items():
        if o: H.append(zb(ne(w.slot(R[r])['key'], w.slot(R['member'])['key'])))
    ps = [R['member']] + [R[r] for r in own] if own else []
    # one account in several positions: whichever names it
    for q in ps or [None]:
        c = Pre(w, st, tag, others, {p: q for p in ps})
        for n, g in conditions(c):
            for k, f in (swap or {}).items():
                if n == k or isinstance(k, tuple) and k[0] in n.replace('stays', 'stay'): g = f(c, g)
            if g is not True: H.append(zb(g))
            if n not in names: names.append(n)
    return H, names

def ready(tag, others):
    """is the member being settled the unmodified account of a role, and the history the pool's?"""
    R = ROLES[tag]; ms = [R[r] for r in ('member', 'delegate', 'old', 'new') if r in R]
    def f(T, C, g):
        if C.key() != ('base', f'D{R["pool"]}@{POOL_T["hist"][0]}'): return False
        for i in ms:
            if T.key() == ('base', f'D{i}@{MINE_T["diffs"][0]}'):
                return all(same(v, leaf_var(f'D{i}', o, 16 if o == MINE['index'][0] else 8)) for o, v in g.items())
        return False
    return f

def no_failure(u, outs, timeout=20000):
    """every failing outcome is contradictory"""
    n = 0
    for kind, s, v in outs:
        if kind == 'panic': u.prove(f'does not panic: {str(v)[:120]}', s.pc, False, timeout=timeout); continue
        if kind != 'ret' or not isinstance(v, Enm): raise Unsupported('result')
        if isc(v.d) and v.d == 0: n += 1; continue
        if isc(v.d): u.prove('does not return an error', s.pc, False, timeout=timeout)
        else: n += 1; u.prove('does not return an error', s.pc, eq(v.d, 0), timeout=timeout)
    u.must('a succeeding outcome remains', n > 0)

def entry_total(u, tag, others, timeout=20000):
    w = u.w; ctx = w.ctx; w.keep_fail = True
    import contracts
    ctx.assume.append(z3.And(zi(w.program_id) != SYSTEM, zi(w.program_id) != SPL))
    contracts.install(w, contracts.USE)
    st = w.start(tag=tag)
    if tag == INIT_POOL: st.mem[('D', 0)] = Buf('D0', w.slot(0)['len'], {}, True)
    H, names = hypotheses(w, st, tag, others)
    ctx.assume += H
    w.ready = ready(tag, others) if 'settle' in contracts.TOTAL else (lambda *x: False)
    if ctx.check((), (), 5000) == z3.unsat or not witness(tag, others): raise Unsupported('the conditions contradict each other')
    outs = w.call(st, sym.entry_point(u.d), [Ptr(('prog',)), Ptr(('accs',), (), 0, w.nacc), Ptr(('IX',), (), 0, st.mem[('IX',)].len)])
    no_failure(u, outs, timeout)
    u.r['detail'] = dict(conditions=names)

def witness(tag, others):
    """a concrete state that meets the conditions: they do not contradict each other"""
    import conc
    g = conc.Gen(1)
    for _ in range(3000):
        c = conc.ConcCase(g.case(tag, 'normal'), None)
        if len(c.accs) >= NSLOTS[tag] and all(c.other(r) == o for r, o in others.items()) and conc.meets(c) is None: return True
    return False

class Generic:
    """case of a single member (contract of the settlement)"""
    def __init__(self, now): self.now = now
    def settled(self, r, M, C, D): return and_(*settled_rule(var('gsettled'), M, C, D))
    def range_(self, M, C, D): return and_(*bounds(M, C, D))
def history_rules(w, C):
    D = day(w.now); x, y = z3.Ints('x y')
    return [z3.ForAll([x], z3.Implies(C.h(x), x <= D), patterns=[C.h(x)]),
            z3.ForAll([x, y], z3.Implies(z3.And(C.h(x), C.h(y), x <= y), C.v(x) <= C.v(y)), patterns=[z3.MultiPattern(C.h(x), C.h(y))])]
def generic_rules(w, T, C, g):
    """g: field values of the member"""
    M = Rec({**g, 'diffs': T}); D = day(w.now)
    return [zb(f) for _, f in member_rules(Generic(w.now), 'member', M, C, D)] + history_rules(w, C)

def lemmas(u):
    """from 'weight times index fits' to every intermediate value of a settlement, by induction over the keys"""
    def lemma(what, hyp, goal):
        s = z3.Solver(); s.set('timeout', 20000); s.add(*hyp); s.add(z3.Not(goal)); r = s.check()
        u.r['obligations'] += 1
        if r == z3.unsat: u.ok('z3')
        else: u.r['failed'].append(dict(obligation=what, answer=str(r)))
    P = P16
    i0, I, v, w, S, A, top, un = z3.Ints('position I v weight S A top unclaimed')
    c = z3.Int('credit')     # floor((v-I)*(w-S)/P)
    rules = [0 <= i0, 0 <= w, 0 <= S, S <= w, i0 <= I, I <= v, v <= top]
    ih = [A >= 0, P*A <= (I - i0)*w]
    cr = [P*c <= (v - I)*(w - S), (v - I)*(w - S) < P*c + P]
    mono = [(v - I)*S >= 0, (v - I)*(w - S) >= 0]
    lemma('products of non-negative numbers', [x for x in rules], z3.And((v - I)*S >= 0, (v - I)*(w - S) >= 0))
    lemma('settlement: nothing credited before the first reduction', [i0 >= 0, w >= 0], z3.And(P*0 <= (i0 - i0)*w))
    lemma('settlement: one more reduction keeps precision * credits within (index - position) * weight', rules + ih + cr + mono, z3.And(A + c >= 0, P*(A + c) <= (v - i0)*w))
    lemma('settlement: the last part keeps it too, so unclaimed stays in range', rules + ih + cr + mono + [(top - v)*w >= 0, un >= 0, P*((top - i0)*w/P) <= (top - i0)*w, un + (top - i0)*w/P <= U64], un + A + c <= U64)
    lemma('settlement: credits so far stay in range', rules + ih + [(top - I)*w >= 0, un >= 0, un + (top - i0)*w/P <= U64], un + A <= U64)
    a, b = z3.Ints('a b')
    lemma('settlement: every product on the way fits', [0 <= a, a <= top - i0, 0 <= b, b <= w, (top - i0 - a)*w >= 0, a*(w - b) >= 0, un >= 0, un + (top - i0)*w/P <= U64], a*b <= I128)
    lemma('products of differences', [0 <= a, a <= top - i0, 0 <= b, b <= w], z3.And((top - i0 - a)*w >= 0, a*(w - b) >= 0))
