"""Refusals: the meaning of the error codes in the program and both clients (C34), and that a refusal names a condition that really fails (C35)."""
import re
import z3
from terms import *
from values import *
import models, interp, world, spec, sym
from spec import *

CODES = [('InvalidAccountOwner', 'Input account owner'), ('MathOverflow', 'Math operation overflow'), ('RewardsNoDeposits', 'Rewards: No deposits'), ('InvalidLockupPeriod', 'Rewards: lockup period invalid'),
    ('DistributionInThePast', 'Rewards: distribution_ends_at date is lower than current date'), ('InvalidPrimitiveTypesConversion', 'Rewards: distribution_ends_at date is lower than current date'),
    ('RewardsMustBeClaimed', 'Rewards: unclaimed rewards must be claimed'), ('RewardsMustBeGreaterThanZero', 'Rewards: rewards amount must be positive'),
    ('StakeFromOthersMustBeZero', 'Rewards: Stake from others must be zero'), ('NoWeightedStakeModifiersAtADate', "No changes at the date in weighted stake modifiers while they're expected"),
    ('DelegatesAreTheSame', 'Passed delegates are the same'), ('RetreivingZeroCopyAccountFailire', 'Getting pointer to the data of the zero-copy account has failed'), ('AlreadyInitialized', 'Account is already initialized'),
    ('InvalidMining', 'Invalid mining'), ('DerivationError', 'Failed to derive PDA'), ('DecreaseRewardsTooBig', "Rewards: Penalty is not apliable becase it's bigger than the mining's weighted stake")]
GENERAL = {0: 'Custom', 1: 'InvalidArgument', 2: 'InvalidInstructionData', 3: 'InvalidAccountData', 4: 'AccountDataTooSmall', 7: 'MissingRequiredSignature', 8: 'AccountAlreadyInitialized', 10: 'NotEnoughAccountKeys'}
MINING = int.from_bytes(b'mining', 'little'); VAULT = int.from_bytes(b'vault', 'little')

# ---------------------------------------------------------------- C34: one meaning of the codes
def the_enum(u, path):
    ts = [t for t in u.d['types'].values() if t['k'] == 'adt' and t['path'] == path]
    if len(ts) != 1: raise Unsupported('the error type')
    return [(v['n'], int(v['d'])) for v in ts[0]['variants']]
def c34_rust(u, path, program):
    """the error type of the program / of the Rust client: variants, decoding of any integer, message, conversion"""
    vs = the_enum(u, path); u.must('exactly the published names and codes', sorted((d, n) for n, d in vs) == [(i, n) for i, (n, _) in enumerate(CODES)])
    E = lambda d: Enm(d, {i: () for i in range(len(CODES))})
    q = re.escape(path.rsplit('::', 1)[0]); ty = re.escape(path)
    if program:
        k = u.find(r'^mplx_rewards::error::<impl std::convert::From<' + ty + r'> for solana_program::program_error::ProgramError>::from$')
        st = u.state(); d = rng(var('variant'), 4)
        for kind, s, v in u.run(st, k, [E(d)]):
            u.must('the conversion returns', kind == 'ret' and isinstance(v, Enm) and 0 in v.alts)
            if kind == 'ret': u.prove('raised as a custom error', s.pc, eq(v.d, 0)); u.prove('with the code of the variant', s.pc, eq(v.alts[0][0], d))
    for b, signed in ((64, True), (64, False)):
        k = u.find('^' + q + r'::\w+::<impl num_traits::FromPrimitive for ' + ty + '>::from_' + ('i' if signed else 'u') + '64$')
        st = u.state(); n = var('n'); RANGE_AX['n'] = z3.And(n >= -2**63, n < 2**63) if signed else z3.And(n >= 0, n < 2**64)
        for kind, s, v in u.run(st, k, [n]):
            u.must('decoding returns', kind == 'ret' and isinstance(v, Enm))
            if kind != 'ret': continue
            known = and_(le(0, n), le(n, len(CODES) - 1))
            u.prove('exactly the published codes are decoded', s.pc, iff(eq(v.d, 1), known))
            if 1 in v.alts and v.alts[1]: u.prove('to the error of that code', s.pc, implies(eq(v.d, 1), eq(v.alts[1][0].d, n)))
    if program:
        for k, f in u.d['fns'].items():
            if f['body'] is not None and re.search('decode_custom_error_to_enum$', f['name']) and path in f['name']:
                st = u.state(); n = rng(var('c'), 32)
                for kind, s, v in u.run(st, k, [n]):
                    u.must('decode_custom_error_to_enum returns', kind == 'ret' and isinstance(v, Enm))
                    if kind != 'ret': continue
                    u.prove('decode_custom_error_to_enum: the published codes', s.pc, iff(eq(v.d, 1), le(n, len(CODES) - 1)))
                    if 1 in v.alts and v.alts[1]: u.prove('decode_custom_error_to_enum: the error of that code', s.pc, implies(eq(v.d, 1), eq(v.alts[1][0].d, n)))
    k = u.find('^<' + ty + ' as std::fmt::Display>::fmt$')
    for i, (n, text) in enumerate(CODES):
        st = u.state(); outs = list(u.w.exec_fn(st, k, [u.ref(st, E(i)), Ptr(u.w.new_obj(st, Opq('formatter'), 'G'))]))
        for kind, s, v in outs:
            u.must(f'{n}: described', kind == 'ret')
            bs = [e[1] for e in s.log if e[0] == 'text']
            if not all(isc(x) for b in bs for _, x in b.ch): raise Unsupported('description')
            got = b''.join(int(x).to_bytes(z, 'little') for b in bs for z, x in b.ch)
            u.must(f'{n}: the published description', got == text.encode())
        u.must(f'{n}: described once', len(outs) == 1)
def c34_js(u, dumpf):
    import jsclient
    from jsx import Sy, Obj, UNDEF
    R = jsclient.Run(u, dumpf); prog = Obj({'name': 'p'}); cause = Obj(cls='error')
    def known(what, k, v, i, p=None):
        n, text = CODES[i]
        u.must(f'{what}: an error', k == 'ret' and isinstance(v, Obj))
        if not (k == 'ret' and isinstance(v, Obj)): return
        u.must(f'{what}: its name', v.p.get('name') == n); u.must(f'{what}: its code', v.p.get('code') == i and not isinstance(v.p.get('code'), bool))
        u.must(f'{what}: its description', v.p.get('message') == text)
        u.must(f'{what}: the program', v.p.get('program') is (p or prog)); u.must(f'{what}: the cause', v.p.get('cause') is cause)
    for way in ('function', 'program'):
        def get(by, x):
            def body(js, _):
                if way == 'function': return js.call(R.exported(js, f'getMplxRewardsErrorFrom{by}'), [x, prog, cause])
                P[0] = js.call(R.exported(js, 'createMplxRewardsProgram'), [])
                return js.call(js.prop(P[0], f'getErrorFrom{by}'), [x, cause], P[0])
            return body
        P = [None]
        for i, (n, text) in enumerate(CODES):
            for (k, v), pc in R.explore(get('Code', i)): known(f'{way}: code {i}', k, v, i, P[0])
            for (k, v), pc in R.explore(get('Name', n)): known(f'{way}: {n}', k, v, i, P[0])
        c = z3.Int('code')
        def unknown(js, x):
            x.pc.append(z3.Or(c < 0, c >= len(CODES))); return get('Code', Sy(c, 'int'))(js, x)
        for (k, v), pc in R.explore(unknown): u.must(f'{way}: nothing for any other code', k == 'ret' and v is None)
        for (k, v), pc in R.explore(get('Name', '\0another name')): u.must(f'{way}: nothing for another name', k == 'ret' and v is None)
    for (k, v), pc in R.explore(lambda js, x: js.call(R.exported(js, 'createMplxRewardsProgram'), [])):
        u.must('program: built', k == 'ret' and isinstance(v, Obj))
        if k != 'ret': continue
        pk = jsclient.kt(v.p.get('publicKey'))
        jsclient.prove(u, 'program: its address', pc, False if pk is None else zi(pk) == zi(R.prog)); u.must('program: its registered name', v.p.get('name') == 'mplxRewards')
    for (k, v), pc in R.explore(lambda js, x: js.call(R.exported(js, 'getMplxRewardsProgramId'), [R.context(x, js)])):
        u.must('program id: found', k == 'ret')
        if k == 'ret': jsclient.prove(u, 'program id: the registered program or the published address', pc, zi(jsclient.kt(v)) == R.progid())
    u.r['detail'] = dict(paths=R.paths); u.r['js'] = sorted(R.a)

# ---------------------------------------------------------------- C35: what must be wrong for a refusal to be truthful
def owners(c):
    """(role, program that has to own the account)"""
    R = c.roles
    for r in ('pool', 'member', 'delegate', 'old', 'new'):
        if r in R and not (r == 'member' and c.tag == INIT_MINING): yield r, c.prog
    for r in ('mint', 'vault', 'source', 'dest'):
        if r in R and not (r == 'vault' and c.tag == INIT_POOL): yield r, SPL
    if 'target' in R: yield 'target', SYSTEM
def delegates(c):
    for r in ('delegate', 'old', 'new'):
        if r in c.roles: yield r, (lambda r=r: c.args['delegate'] if r == 'delegate' else c.args['new_delegate'] if r == 'new' else c.pre(r).owner)
def named_member(c, r, who):
    M = c.pre(r); return c.derived(r, (6, MINING), (32, who), (32, c.key('pool')), (1, M.bump))
def truths(c):
    """{published code or general error: what must be true (at least) when the instruction is refused with it}; thunks"""
    t = c.tag; a = c.args; R = c.roles; D = day(c.now); out = {}
    def settled(): return settle(c.pre('member'), c.pre('pool').hist, D)
    n = NSLOTS[t]
    out['NotEnoughAccountKeys'] = lambda: lt(c.nacc, n)
    out['MissingRequiredSignature'] = lambda: or_(lt(c.nacc, n), *[not_(c.slot(R[r])['signer']) for r in SIGNERS[t]])
    out[0] = lambda: or_(*[ne(c.owner(r), p) for r, p in owners(c)])
    out[2] = lambda: le(sub(c.pre('pool').total, c.pre('pool').diffs.S(D)), 0) if t == DISTRIBUTE else False
    out[3] = lambda: or_(*[eq(a[x], 0) for x in a if x.endswith('period')])
    out[4] = lambda: lt(day(a['ends']), D) if t == FILL else False
    out[6] = lambda: history(c) or ne(settled().unclaimed, 0) if t == CLOSE else False
    out[7] = lambda: eq(a['rewards'], 0) if t == FILL else False
    out[8] = lambda: ne(c.pre('member').sfo, 0) if t == CLOSE else False
    def missing():
        if t == SLASH: E = day(a['date']); live = eq(a['has_date'], 1)
        elif t == EXTEND:
            op = a['old_period']; E = ite(eq(op, 1), 0, add(day(a['start']), mul(DAY, table(DAYS, op)))); live = lt(c.now, E)
        else: return False
        return and_(live, or_(not_(c.pre('pool').diffs.has(E)), not_(c.pre('member').diffs.has(E)), le(E, D)))
    out[9] = missing
    out[10] = lambda: eq(c.key('old'), c.key('new')) if t == CHANGE else False
    out[11] = lambda: or_(*[ne(c.length(r), POOL_LEN if r == 'pool' else MINE_LEN) for r, p in owners(c) if p is c.prog])
    out[12] = lambda: ne(c.pre('pool').type, 0) if t == INIT_POOL else False
    out[13] = out[14] = lambda: or_(*[not_(named_member(c, r, who())) for r, who in delegates(c)])
    out[15] = lambda: lt(settled().share, a['penalty']) if t == DECREASE else False
    def full():
        g = []
        if t == DISTRIBUTE: H = c.pre('pool').hist; g.append(and_(le(H.cap, H.size()), not_(H.has(D))))
        if t in (DEPOSIT, EXTEND):
            for r, cap in (('pool', 365), ('member', 50)): g.append(le(cap, c.pre(r).diffs.size()))
        return or_(*g)
    out['AccountDataTooSmall'] = full
    out['AccountAlreadyInitialized'] = lambda: ne(c.length('vault' if t == INIT_POOL else 'member'), 0) if t in (INIT_POOL, INIT_MINING) else False
    return out
def history(c): c.need('hist'); return False
def title(k): return f'refused as {CODES[k][0] if isinstance(k, int) else k}: that is what is wrong'
def refusals(w, outs, tag):
    """failing outcomes: (case, error value)"""
    for kind, s, v in outs:
        if kind != 'ret': continue
        if not isinstance(v, Enm): raise Unsupported('result of the entry point')
        if isc(v.d) and v.d == 0: continue
        if not isc(v.d): s = s.fork(); s.assume(ne(v.d, 0))
        if not w.ctx.feasible(s.pc): continue
        c = sym.SymCase(w, s, tag, {r: True for r in ('delegate', 'old', 'new')})
        yield c, v.alts.get(1, (Opq('?'),))[0]
def c35(u, tag, timeout=10000):
    w, outs = sym.run_entry(u.d, tag, keep_fail=True, use=())
    u.w = w; n = 0; D = sym.Discharge(w)
    w.slot(NSLOTS[tag] - 1)
    seen = set(); unknown = 0
    for c, e in refusals(w, outs, tag):
        n += 1
        if not isinstance(e, Enm): unknown += 1; continue
        p = e.alts.get(0); obls = []
        if p and not isinstance(p[0], (int, z3.ExprRef)): raise Unsupported('error code')
        for k, g in truths(c).items():
            if isinstance(k, str): hyp = eq(e.d, next(i for i, x in GENERAL.items() if x == k))
            elif not p: continue
            else: hyp = and_(eq(e.d, 0), eq(p[0], k))
            if hyp is False: continue
            if w.ctx.check(c.st.pc, [zb(hyp)] + sym.leaf_links(), 3000) == z3.unsat: u.r['obligations'] += 1; u.ok('z3'); continue
            seen.add(k); obls.append((title(k), implies(hyp, g())))
        if p: obls.append(('only published codes', implies(eq(e.d, 0), le(p[0], len(CODES) - 1))))
        D.prove(c, 'C35', obls, timeout)
    u.must('refusals exist', n > 0)
    u.r['tag'] = tag; u.t += D.t
    u.r['obligations'] += D.n; u.r['discharged'] += D.n - len(D.failed)
    u.r['failed'] += [dict(obligation=n, answer=a) for _, n, a in D.failed]
    for k, v in D.backend.items(): u.r['backend'][k] = u.r['backend'].get(k, 0) + v
    u.r['hints'] = D.hints
    u.r['detail'] = dict(refusals=n, codes=sorted(CODES[k][0] if isinstance(k, int) else k for k in seen), library_errors=unknown)

# ---------------------------------------------------------------- C35, the other direction: with everything else in order, the refusal carries the code of what is wrong
def violated(tag, others):
    """(label, {condition: its violation}, published code or general error)"""
    R = ROLES[tag]; no = lambda c, g: not_(g); yes = lambda c, g: True; ranges = ('stay in range',)
    alien = lambda r, n: (lambda c, g: and_(ne(c.owner(r), c.prog), eq(c.length(r), n)))
    yield 'accounts missing', {'enough accounts': no}, 'NotEnoughAccountKeys'
    for r in SIGNERS[tag]: yield f'{r} does not sign', {f'{r} signs': no}, 'MissingRequiredSignature'
    yield 'pool not owned by the program', {'pool account': alien('pool', POOL_LEN)}, 0
    if tag == INIT_POOL:
        yield 'mint of another program', {'a mint': no}, 0
        yield 'vault at another address', {'canonical address': no}, 'InvalidArgument'
        return
    if tag == INIT_MINING:
        yield 'member account at another address', {'canonical address': no}, 'InvalidArgument'
        return
    yield 'wrong authority', {'the right authority': no}, 'InvalidArgument'
    for r in ('member', 'delegate', 'old', 'new'):
        if r not in R or not (r == 'member' or others[r]) or r == 'member' and not all(others.values()): continue
        yield f'{r} not owned by the program', {f'{r} account': alien(r, MINE_LEN)}, 0
    if 'member' in R and all(others.values()):
        if tag not in (CLAIM, CLOSE): yield 'member of another owner', {'member has the named owner': no, 'member address': yes}, ('InvalidArgument', 'InvalidSeeds')
        else: yield 'member of another owner', {'member has the named owner': no, 'member address': yes, 'dest has the right owner': yes}, ('InvalidArgument', 'InvalidSeeds')
        yield 'member of another pool', {'member of the pool': lambda c, g: and_(eq(c.pre('member').type, 2), ne(c.pre('member').pool, c.key('pool'))), 'member address': yes}, ('InvalidArgument', 'InvalidSeeds')
    if 'delegate' in R and others['delegate']: yield 'not the account of the named delegate', {'delegate has the named owner': yes, 'delegate address': no}, (13, 14)
    if tag in (FILL, CLAIM):
        yield 'mint of another program', {'the mint': lambda c, g: and_(eq(c.pre('pool').mint, c.key('mint')), ne(c.owner('mint'), SPL))}, 0
        yield 'not the vault', {'the vault': no}, ('InvalidArgument', 'InvalidSeeds')
        for r in ('vault', 'source' if tag == FILL else 'dest'): yield f'{r} of another program', {f'{r} is a token account': lambda c, g, r=r: and_(ne(c.owner(r), SPL), eq(c.length(r), 165), c.token(r))}, 0
        if tag == CLAIM: yield 'rewards to somebody else', {'dest has the right owner': no}, 'InvalidArgument'
    if tag == FILL:
        yield 'nothing to fill', {'positive amount': no}, 7
        yield 'end day in the past', {'end day not before today': no, 'end day not before the current end': yes}, 4
    if tag == DISTRIBUTE:
        yield 'no stake', {'weight left': lambda c, g: eq(c.pre('pool').total, 0), 'today': no}, 2
        yield 'history full', {'the day is recorded or a slot free': no}, 'AccountDataTooSmall'
    if tag == DEPOSIT: yield 'no lockup period', {'a real lockup period is given': lambda c, g: eq(c.args['period'], 0), **slots(tag), ranges: yes}, (3, 1)
    if tag == EXTEND:
        yield 'no new lockup period', {'a real lockup period is given': lambda c, g: eq(c.args['new_period'], 0), **slots(tag), ranges: yes}, (3, 1)
        for r in ('pool', 'member'): yield f'unexpired stake not covered by the {r} schedule', {f'unexpired stake has its reduction in the {r} schedule': no, 'weights cover the old stake': yes, **slots(tag), ranges: yes}, (9, 1)
    if tag in (DEPOSIT, EXTEND):
        for r in ('pool', 'member'): yield f'{r} schedule full', {f'{r}: the day is there or a slot free': lambda c, g, r=r: full_after(c, r, g)}, 'AccountDataTooSmall'
    if tag == CLOSE:
        yield 'rewards unclaimed', {'no unclaimed rewards': no}, 6
        yield 'stake received', {'no stake received': no, 'no unclaimed rewards': yes}, 8
        yield 'lamports to an account of a program', {'target of the lamports': lambda c, g: and_(ne(c.owner('target'), SYSTEM), le(add(c.lam_pre(R['member']), c.lam_pre(R['target'])), U64))}, 0
    if tag == CHANGE and all(others.values()): yield 'same delegates', {'old and new delegate differ': no, 'the accounts that are written are different accounts': yes}, 10
    if tag == DECREASE: yield 'penalty too big', {'penalty within the weight': no, ranges: yes}, 15
    if tag == SLASH:
        for r in ('member', 'pool'): yield f'{r} has no reduction on that day', {f'{r} has a reduction on that day': no, f'{r} reduction covers it': yes, ranges: yes}, 9
    if tag in (WITHDRAW, SLASH): yield 'more than the member has', {'not more than the member has': no, 'member reduction covers it': yes, ranges: yes}, 1
    if tag == WITHDRAW and others['delegate']: yield 'more than the delegate received', {'not more than the delegate received': no, ranges: yes}, 1
    if tag == CHANGE and others['old']: yield 'more than the old delegate received', {'old delegate received that much': no, ranges: yes}, 1
def slots(tag): return {f'{r}: the day is there or a slot free': lambda c, g: True for r in ('pool', 'member')}
def full_after(c, r, g):
    """no slot free even after the due days are dropped (nothing is due)"""
    x = z3.Int('x'); T = c.pre(r).diffs; D = day(c.now)
    if getattr(c, 'concrete', False): return not g and all(k > D for k in T.keys)
    return and_(not_(g), z3.ForAll([x], z3.Implies(T.h(x), zi(D) < x), patterns=[T.h(x)]))
def precise(u, tag, others, label, timeout=10000):
    import total, contracts
    u.r['tag'] = tag
    swap, want = next((s, k) for l, s, k in violated(tag, others) if l == label)
    w = u.w; ctx = w.ctx; w.keep_fail = True
    ctx.assume.append(z3.And(zi(w.program_id) != SYSTEM, zi(w.program_id) != SPL))
    contracts.install(w, contracts.USE)
    st = w.start(tag=tag)
    if tag == INIT_POOL: st.mem[('D', 0)] = Buf('D0', w.slot(0)['len'], {}, True)
    H, names = total.hypotheses(w, st, tag, others, swap)
    if not any(k in names for k in swap if isinstance(k, str)): raise Unsupported('no such condition')
    ctx.assume += H
    w.ready = total.ready(tag, others) if 'settle' in contracts.TOTAL else (lambda *x: False)
    outs = w.call(st, sym.entry_point(u.d), [Ptr(('prog',)), Ptr(('accs',), (), 0, w.nacc), Ptr(('IX',), (), 0, st.mem[('IX',)].len)])
    n = 0; codes = want if isinstance(want, tuple) else (want,); what = f'{label}: refused as ' + ' or '.join(k if isinstance(k, str) else CODES[k][0] for k in codes)
    for kind, s, v in outs:
        if kind != 'ret': u.prove(what + ', no panic', s.pc, False, extra=sym.leaf_links(), timeout=timeout); continue
        if isc(v.d) and v.d == 0: u.prove(what + ', not accepted', s.pc, False, extra=sym.leaf_links(), timeout=timeout); continue
        if not isc(v.d):
            u.prove(what + ', not accepted', s.pc, ne(v.d, 0), extra=sym.leaf_links(), timeout=timeout); s = s.fork(); s.assume(ne(v.d, 0))
        n += 1
        e = v.alts[1][0]
        if not isinstance(e, Enm): g = False
        else: g = or_(*[eq(e.d, next(i for i, x in {**GENERAL, 13: 'InvalidSeeds'}.items() if x == k)) if isinstance(k, str) else and_(eq(e.d, 0), eq(e.alts[0][0], k)) if 0 in e.alts else False for k in codes])
        u.prove(what, s.pc, g, extra=sym.leaf_links(), timeout=timeout)
    u.must('a refusal', n > 0)
    u.r['detail'] = dict(conditions=len(names))
