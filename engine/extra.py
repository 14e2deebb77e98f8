"""Verification units besides the entry points: contracts of single functions, lemmas over the contracts, the wire format,
the zero-copy views, and the constructors of the program crate and of the generated client."""
import re, sys, time, traceback
import z3
from terms import *
from values import *
import trees, models, interp, world, spec, sym
from spec import *

# ---------------------------------------------------------------- one function under its contract
class Unit:
    """symbolic execution of one function of the working tree; panics and errors are kept"""
    def __init__(self, dumpf, name, keep=True):
        self.t0 = time.time(); self.name = name
        self.d = interp.load_dump(dumpf) if isinstance(dumpf, str) else dumpf
        self.w = world.World(self.d, interp.Ctx(), keep)
        self.r = dict(name=name, obligations=0, discharged=0, failed=[], hints=[], unsupported=None, backend={})
        self.t = 0.0
        self.reached = 0
    def find(self, *pats):
        for p in pats:
            ks = [k for k, f in self.d['fns'].items() if re.search(p, f['name']) and f['body'] is not None]
            if len(ks) == 1: return ks[0]
            if len(ks) > 1: raise Unsupported(f'{p}: {len(ks)} functions')
        raise Unsupported(f'no function {pats[0]}')
    def state(self): return self.w.start()
    def tyname(self, t): return self.w.T(t)['name']
    def argtys(self, k): f = self.d['fns'][k]; return f['locals'][1:1 + f['nargs']]
    def ref(self, st, v): return Ptr(self.w.new_obj(st, v, 'G'))
    def passed(self, st, t, v):
        """v as an argument of type t (by value or behind a reference)"""
        return self.ref(st, v) if self.w.T(t)['k'] in ('ref', 'ptr') else v
    def run(self, st, k, args): return self.w.call(st, k, args)
    def prove(self, what, pc, goal, extra=(), timeout=10000):
        self.r['obligations'] += 1
        if goal is True: self.ok('trivial'); return True
        t = time.time()
        for seed in (0, 1):
            s = self.w.ctx.solver(pc, list(extra) + [z3.Not(zb(goal))], timeout)
            if seed: s.set('random_seed', 1); s.set('smt.random_seed', 1)
            a = s.check()
            if a != z3.unknown: break
        self.t += time.time() - t
        if a == z3.unsat: self.ok('z3'); return True
        self.r['failed'].append(dict(obligation=what, answer=str(a)))
        return False
    def must(self, what, c):
        """an obligation decided on the structure"""
        self.r['obligations'] += 1
        if c: self.ok('trivial')
        else: self.r['failed'].append(dict(obligation=what, answer='sat'))
    def ok(self, b): self.r['discharged'] += 1; self.r['backend'][b] = self.r['backend'].get(b, 0) + 1
    def done(self):
        r = self.r; w = self.w
        import run
        n = w.ctx.obligations_loop; r['obligations'] += n; r['discharged'] += n; r['loop_obligations'] = n
        if n: r['backend']['z3'] = r['backend'].get('z3', 0) + n
        if 'js' in r:
            import jsx
            r['js_functions'] = sorted(jsx.USED)
        r['functions'] = sorted({w.fns[k]['name'] for k in w.used_fns if run.own(w.fns[k]['name'])})
        r['contracts'] = sorted({w.fns[k]['name'] for k in w.used_summaries if w.fns[k]['name'].startswith('mplx_rewards::state')} | set(sym.SUMMARISED)); r['summaries'] = bool(r['contracts'])
        r['assumed'] = sorted({m.split(': ')[0] for m in w.used_models})
        r['loops'] = [dict(fn=l['fn'], invariants=len(l['invariants'])) for l in w.loops_done]
        r['queries'] = w.ctx.nq; r['solver_s'] = round(w.ctx.tq + self.t, 2); r['wall_s'] = round(time.time() - self.t0, 2)
        return r

def guarded(name, fn, dumpf, *a):
    import contracts
    r = guarded1(name, fn, dumpf, *a)
    if (r['failed'] or r['unsupported']) and contracts.USE and r['summaries']:     # follow the bodies instead
        contracts.USE = (); r = guarded1(name, fn, dumpf, *a)
    return r
def guarded1(name, fn, dumpf, *a):
    u = Unit(dumpf, name); sym.SUMMARISED.clear()
    try: fn(u, *a)
    except Unsupported as e: u.r['unsupported'] = str(e)[:400]
    except Exception as e: u.r['unsupported'] = f'internal: {type(e).__name__}: {e}'[:400]; u.r['trace'] = traceback.format_exc()[-1500:]
    return u.done()
def job(dumpf, name, fn, *a): return (guarded, (name, fn, dumpf) + a, name)
def is_ok(v): return isinstance(v, Enm) and isc(v.d) and v.d == 0

# ---------------------------------------------------------------- C21: the lockup table
PERIODS = ['None', 'Flex', 'ThreeMonths', 'SixMonths', 'OneYear']
def c21(u, which):
    k = u.find(r'utils::LockupPeriod::' + which + '$')
    ts = u.argtys(k)
    V = next((t for t in u.d['types'].values() if t['k'] == 'adt' and t['path'].endswith('utils::LockupPeriod')), None)
    if V is None: raise Unsupported('no LockupPeriod type')
    names = [v['n'] for v in V['variants']]
    u.must('five periods, coded 0 to 4 in the published order', names == PERIODS and [int(v['d']) for v in V['variants']] == list(range(5)))
    if names != PERIODS: return
    for i, n in enumerate(names):
        st = u.state(); x = rng(var('start'), 64); st.assume(lt(x, 2**63))
        args = [u.passed(st, ts[0], Enm(i, {i: ()}))]
        if which == 'end_timestamp': args.append(x)
        if len(args) != len(ts): raise Unsupported('signature')
        for kind, s, v in u.run(st, k, args):
            if which == 'multiplier':
                u.must(f'{n}: no panic', kind == 'ret')
                if kind == 'ret': u.prove(f'{n}: multiplier is {MULT[i]}', s.pc, eq(v, MULT[i]))
                continue
            if kind != 'ret': u.prove(f'{n}: no panic', s.pc, False); continue
            d = v.d
            if i == 0: u.prove(f'{n}: refused', s.pc, ne(d, 0)); continue
            u.prove(f'{n}: accepted', s.pc, eq(d, 0))
            if 0 not in v.alts or not v.alts[0]: continue
            val = v.alts[0][0]
            if which == 'days': u.prove(f'{n}: {DAYS[i]} days', s.pc, implies(eq(d, 0), eq(val, DAYS[i])))
            else:
                u.prove(f'{n}: expires {DAYS[i]} days after the start of the day', s.pc, implies(eq(d, 0), eq(val, add(sub(x, mod(x, DAY)), DAYS[i]*DAY))))
                u.prove(f'{n}: expires on a day boundary', s.pc, implies(eq(d, 0), eq(mod(val, DAY), 0)))

# ---------------------------------------------------------------- C22: the checked arithmetic helpers
def c22(u, bits, op):
    k = u.find(rf'^<u{bits} as mplx_rewards::.*SafeArithmeticOperations>::safe_{op}$')
    ts = u.argtys(k)
    st = u.state(); a, b = rng(var('a'), bits), rng(var('b'), bits)
    exact = {'add': add(a, b), 'sub': sub(a, b), 'mul': mul(a, b), 'div': div(a, b)}[op]
    fits = ne(b, 0) if op == 'div' else and_(le(0, exact), le(exact, 2**bits - 1))
    for kind, s, v in u.run(st, k, [u.passed(st, ts[0], a), u.passed(st, ts[1], b)]):
        if kind != 'ret': u.prove('never panics', s.pc, False); continue
        u.prove('succeeds exactly when the result fits', s.pc, iff(eq(v.d, 0), fits))
        if 0 in v.alts: u.prove('the result is the exact one', s.pc, implies(eq(v.d, 0), eq(v.alts[0][0], exact)))

# ---------------------------------------------------------------- C12: the sums over all members
def c12(u):
    """Lemmas over the contracts of distribute (index step), settle (credit) and the weight accounting (C10), by which any number of members
    and settlements stays within what was distributed.  Pure arithmetic: nothing of the code is involved here but its contracts."""
    def lemma(what, vs, hyp, goal):
        s = z3.Solver(); s.set('timeout', 20000); s.set('smt.mbqi', False)
        s.add(*hyp); s.add(z3.Not(goal)); r = s.check()
        u.r['obligations'] += 1
        if r == z3.unsat: u.ok('z3')
        else: u.r['failed'].append(dict(obligation=what, answer=str(r)))
    P = P16
    a, t, q, r = z3.Ints('amount total step rest')
    # q = floor(P*a/t)
    step = [t > 0, a >= 0, P*a == q*t + r, r >= 0, r < t]
    lemma('index step rounds down: step * total <= precision * amount', (), step, q*t <= P*a)
    lemma('the index step is not negative', (), step, q >= 0)
    W = z3.Int('weights')
    lemma('any weights within the total: step * weights <= precision * amount', (), step + [q >= 0, q*t <= P*a, W >= 0, W <= t, z3.Implies(z3.And(W <= t, q >= 0), q*W <= q*t)], q*W <= P*a)
    lemma('monotony of the product used above', (), [q >= 0, W >= 0, W <= t, t - W >= 0, q*(t-W) >= 0, q*(t-W) == q*t - q*W], q*W <= q*t)
    x, y = z3.Ints('x y')
    lemma('rounding two credits down separately never exceeds rounding their sum', (), [x >= 0, y >= 0], x/P + y/P <= (x+y)/P)
    lemma('a credit times the precision never exceeds the exact share', (), [x >= 0], P*(x/P) <= x)
    A, e = z3.Ints('credits exact')
    lemma('induction over the credits: one more credit stays within the exact sum', (), [P*A <= e, x >= 0], P*(A + x/P) <= e + x)
    lemma('credits of one distribution: precision * credits <= precision * amount gives credits <= amount', (), [P*A <= e, e <= P*a], A <= a)

# ---------------------------------------------------------------- C25: the zero-copy views
VIEWS = {
    'pool': dict(mut=r'state::reward_pool::WrappedRewardPool::<.*>::from_bytes_mut$', imm=r'state::reward_pool::WrappedImmutableRewardPool::<.*>::from_bytes$', len=POOL_LEN, parts=[(0, 176), (176, 11712), (11888, 52592)]),
    'member': dict(mut=r'state::mining::WrappedMining::<.*>::from_bytes_mut$', imm=r'state::mining::WrappedImmutableMining::<.*>::from_bytes$', len=MINE_LEN, parts=[(0, 144), (144, 1632)]),
}
def c25(u, which):
    V = VIEWS[which]; got = {}
    for mode in ('mut', 'imm'):
        k = u.find(V[mode])
        st = u.state(); st.mem[('B',)] = Buf('B', rng(var('BLEN'), 32)); n = st.mem[('B',)].len
        for kind, s, v in u.run(st, k, [Ptr(('B',), (), 0, n)]):
            if kind != 'ret': u.prove(f'{mode}: a panic only on data that is too short or misaligned', s.pc, ne(n, V['len'])); continue
            u.prove(f'{mode}: data too short is refused', s.pc, or_(ne(v.d, 0), le(V['len'], n)))
            u.prove(f'{mode}: data of the exact length is accepted', s.pc, or_(eq(v.d, 0), ne(n, V['len'])))
            if not (isc(v.d) and v.d != 0): 
                fs = v.alts[0][0].f; T = u.w.T(gok(u, k)); ns = [x for x, _ in T['variants'][0]['f']]
                views = {}
                for nm, p in zip(ns, fs):
                    if not isinstance(p, Ptr) or p.obj != ('B',): raise Unsupported(f'view {p!r}'[:100])
                    off, t = (u.w.view(p.path)[0], u.w.view(p.path)[1]) if p.path else (p.off, None)
                    if t is None: raise Unsupported('untyped view')
                    views[nm] = (off, u.w.size(t), t)
                got[mode] = views
                spans = sorted((o, z) for o, z, _ in views.values())
                u.must(f'{mode}: the parts tile the account', spans == V['parts'])
                u.must(f'{mode}: content is not touched', not s.mem[('B',)].lv)
    if len(got) == 2:
        for nm in set(got['mut']) | set(got['imm']):
            u.must(f'{nm}: both views read the same bytes as the same type', nm in got['mut'] and nm in got['imm'] and got['mut'][nm] == got['imm'][nm])
    # every field has its own bytes: a write through one view shows in exactly that field of the other
    for nm, (off, size, t) in got.get('mut', {}).items():
        T = u.w.T(t)
        if u.w.is_tree(t): continue
        spans = sorted((T['lay']['offsets'][i], u.w.size(ft)) for i, (_, ft) in enumerate(T['variants'][0]['f']))
        u.must(f'{nm}: fields do not overlap', all(a + n <= b for (a, n), (b, _) in zip(spans, spans[1:])) and spans[-1][0] + spans[-1][1] <= size)
def gok(u, k):
    """type of the Ok payload of a function returning Result"""
    T = u.w.T(u.d['fns'][k]['locals'][0])
    return T['variants'][0]['f'][0][1]

# ---------------------------------------------------------------- C23: instruction bytes
def flat(v, t, m):
    """scalar content of a decoded field: numbers, keys, fieldless enums"""
    if isinstance(v, Tup) and len(v.f) == 1: return flat(v.f[0], t, m)
    if isinstance(v, BArr): return bint(v)
    if isinstance(v, Enm): return v.d
    if isinstance(v, Val): raise Unsupported(f'decoded field {v!r}'[:100])
    return v
def c23_decode(u, tag):
    k = u.find(r'^<mplx_rewards::instruction::RewardsInstruction as borsh::BorshDeserialize>::try_from_slice$')
    st = u.w.start(tag=tag); n = st.mem[('IX',)].len
    if tag is None:
        b = leaf_var('IX', 0, 1); st.assume(or_(eq(n, 0), le(12, b)))
    for kind, s, v in u.run(st, k, [Ptr(('IX',), (), 0, n)]):
        if tag is None:
            u.prove('unknown discriminators and empty data are refused', s.pc, kind != 'ret' or ne(v.d, 0), extra=sym.leaf_links()); continue
        off, end = arg_offsets(tag)
        a = {x: leaf_var('IX', o, z) for x, (o, z) in off.items()}
        has = eq(a['has_date'], 1) if tag == SLASH else False
        size = ite(has, end + 8, end)
        valid = and_(eq(n, size), *[le(a[x], 4) for x in a if x.endswith('period')], *([le(a['has_date'], 1)] if tag == SLASH else []))
        ok = kind == 'ret' and eq(v.d, 0)
        if kind == 'ret' and 0 in v.alts:
            e = v.alts[0][0]
            if not isinstance(e, Enm): raise Unsupported('decoded value')
            u.prove('exact length, valid codes: nothing else is accepted', s.pc, implies(ok, valid), extra=sym.leaf_links())
            u.prove(f'decodes to {NAMES[tag]}', s.pc, implies(ok, eq(e.d, tag)), extra=sym.leaf_links())
            fs = e.alts.get(tag, ())
            want = [x for x, _ in ARGS[tag]]
            u.must('all arguments are decoded', len(fs) == len(want))
            for f, x in zip(fs, want):
                if x == 'has_date':
                    u.prove('optional date present iff coded so', s.pc, implies(ok, iff(has, eq(f.d, 1))), extra=sym.leaf_links())
                    if 1 in f.alts: u.prove('optional date is the coded one', s.pc, implies(and_(ok, has), eq(f.alts[1][0], leaf_var('IX', end, 8))), extra=sym.leaf_links())
                else: u.prove(f'argument {x} is the coded one', s.pc, implies(ok, eq(flat(f, None, u.w), a[x])), extra=sym.leaf_links())
        u.prove('well-formed bytes are accepted', s.pc, or_(ok, not_(valid)), extra=sym.leaf_links())

def c23_dispatch(u, dumpf, tag, timeout):
    """the dispatcher is checked against its callees' signatures: the handler is called once, with the decoded arguments in order, the given
    program id and the whole account list, and its result is returned.  If the code is shaped differently, the whole effect is proved instead."""
    d = u.d; calls = {}
    cand = [k for k, f in d['fns'].items() if re.search(r'^mplx_rewards::instructions::.*::process_\w+$', f['name'])]
    u.w.keep_fail = True
    n = [0]
    def summary(k):
        def f(m, st, args):
            st = st.fork(); n[0] += 1; r = var(f'handler{n[0]}'); rng(r, 1)
            args = [m.read(st, a.obj, a.path) if isinstance(a, Ptr) and a.meta is None else a for a in args]     # references to copies on the caller's frame
            st.log = st.log + (('handler', k, tuple(args), r),)
            return [(st, Enm(r, {0: (UNIT,), 1: (Opq('progerr'),)}))]
        return f
    for k in cand: u.w.summaries[k] = summary(k)
    st = u.w.start(tag=tag)
    good = True; why = ''
    try:
        outs = u.w.call(st, sym.entry_point(d), [Ptr(('prog',)), Ptr(('accs',), (), 0, u.w.nacc), Ptr(('IX',), (), 0, st.mem[('IX',)].len)])
        hs = set(); obls = []
        off, end = arg_offsets(tag)
        want = [leaf_var('IX', o, z) for x, (o, z) in off.items() if x != 'has_date']
        for kind, s, v in outs:
            if kind != 'ret': continue
            es = [e for e in s.log if e[0] == 'handler']
            if not es: obls.append(('without a handler there is no success', s, ne(v.d, 0))); continue
            _, k, args, r = es[0]
            hs.add(k)
            obls.append(('one handler', s, len(es) == 1)); obls.append(("the handler's result is returned", s, iff(eq(v.d, 0), eq(r, 0))))
            pr, ac, rest = args[0], args[1], args[2:]
            obls.append(('the given program id', s, eq(models.pkval(u.w, pr), u.w.program_id)))
            obls.append(('the whole account list', s, isinstance(ac, Ptr) and ac.obj == ('accs',) and ac.off == 0 and same(ac.meta, u.w.nacc)))
            got = []
            for a in rest:
                got.append(a)
            if tag == SLASH:
                o = [a for a in got if isinstance(a, Enm) and 1 in a.alts and len(a.alts[1]) == 1]
                obls.append(('the optional date', s, len(o) == 1 and and_(iff(eq(o[0].d, 1), eq(leaf_var('IX', off['has_date'][0], 1), 1)), implies(eq(o[0].d, 1), eq(o[0].alts[1][0], leaf_var('IX', end, 8))))))
                got = [a for a in got if not any(a is x for x in o)]
            got = [flat(a, None, u.w) for a in got]
            if len(got) != len(want): raise Unsupported('handler arguments')
            for (x, _), a, b in zip([y for y in ARGS[tag] if y[0] != 'has_date'], got, want): obls.append((f'argument {x}', s, eq(a, b)))
        if len(hs) != 1: good = False; why = 'handlers'
        if good and not (d['fns'][next(iter(hs))]['name'].endswith('process_' + NAMES[tag])): good = False; why = 'handler name'
        if good:
            for what, s, g in obls:
                if g is not True and u.w.ctx.check(s.pc, [z3.Not(zb(g))] + leaf_links(), 5000) != z3.unsat: good = False; why = what; break
        if good:
            for what, s, g in obls: u.ok('trivial' if g is True else 'z3'); u.r['obligations'] += 1
            return
    except Unsupported as e: why = str(e)
    u.r['detail'] = f'dispatcher not decided on its own ({why}): whole effect proved'
    import props
    w, outs = sym.run_entry(d, tag); D = sym.Discharge(w)
    for c in sym.cases(w, outs, tag):
        if w.ctx.check(c.st.pc, (), 5000) == z3.unsat: continue
        D.prove(c, 'C23', list(props.C23(c)), timeout)
    u.w = w; u.t += D.t
    u.r['obligations'] += D.n; u.r['discharged'] += D.n - len(D.failed)
    u.r['failed'] += [dict(obligation=f'effect of {NAMES[tag]}: {n}', answer=a) for c, n, a in D.failed]
    for k, v in D.backend.items(): u.r['backend'][k] = u.r['backend'].get(k, 0) + v
    if D.failed: u.r['tag'] = tag; u.r['hints'] = D.hints
def leaf_links(): return sym.leaf_links()

def wire(u, tag, A):
    """the bytes of an instruction with argument values A, as (size, value) pieces (optional date: list of alternatives)"""
    return [(1, tag)] + [(n, A[x]) for x, n in ARGS[tag] if x != 'has_date']
def same_bytes(u, st, what, got, pieces):
    """got (byte array) holds exactly the pieces"""
    n = sum(k for k, _ in pieces)
    u.must(f'{what}: length {n}', isinstance(got, BArr) and got.n == n)
    if not (isinstance(got, BArr) and got.n == n): return
    o = 0
    for k, v in pieces:
        u.prove(f'{what}: bytes {o}..{o+k}', st.pc, eq(bint(bslice(got, o, k)), v), extra=sym.leaf_links()); o += k
def bslice(b, o, n):
    out = []; p = 0
    for k, v in b.ch:
        lo, hi = max(o, p), min(o + n, p + k)
        if lo < hi: out.append((hi - lo, mod(div(v, 1 << 8*(lo - p)), 1 << 8*(hi - lo)) if (lo, hi) != (p, p + k) else v))
        p += k
    return BArr(n, tuple(out))
def arg_values(u, st, tag):
    """fresh argument values within their types"""
    A = {}
    for x, n in ARGS[tag]:
        if x == 'has_date': continue
        v = var('arg_' + x); A[x] = v
        if n == 32: RANGE_AX[v.decl().name()] = z3.And(v >= 0, v < 2**256)
        else: rng(v, 8*n)
    return A
def pk(u, st, v, behind):
    v = models.mkpk(v)
    return u.ref(st, v) if behind else v
def as_value(u, st, t, x, v, some):
    """an argument of type t holding v"""
    T = u.w.T(t)
    if T['k'] in ('ref', 'ptr'): return u.ref(st, as_value(u, st, T['e'], x, v, some))
    if T['k'] == 'adt' and T['path'].endswith('Pubkey'): return models.mkpk(v)
    if T['k'] == 'adt' and T['path'].endswith('LockupPeriod'): return Enm(v, {i: () for i in range(5)})
    if T['k'] == 'adt' and T['path'].endswith('option::Option'): return Enm(1, {0: (), 1: (v,)}) if some else Enm(0, {0: ()})
    return v
def metas(v):
    if not isinstance(v, Vec) or v.keys is not None: raise Unsupported('account list')
    return v.items

def needs(dumpf, tag):
    """(accounts written, per account: signature implied, accounts used) over every successful path of the entry point"""
    w, outs = sym.run_entry(interp.load_dump(dumpf), tag)
    wr, sg, used = set(), None, 0
    for kind, s, v in outs:
        if kind != 'ret' or not sym.may_ok(v): continue
        s = s.fork()
        if not isc(v.d): s.assume(eq(v.d, 0))
        if not w.ctx.feasible(s.pc): continue
        for k, b in s.mem.items():
            if k[0] == 'D' and isinstance(b, Buf) and (b.lv and any(changed(b.name, o, n, x) for o, (n, x) in b.lv.items()) or b.name != f'D{k[1]}' or b.zero): wr.add(k[1])
            if k[0] == 'LAM' and not same(b, var(f'lamports{k[1]}')): wr.add(k[1])
        for e in s.log:
            if e[0] == 'cpi':
                for f in {'create_account': ['src', 'to'], 'transfer': ['src', 'to'], 'init_account': ['account']}.get(e[1].kind, []):
                    wr |= {i for i in e[2] if f in e[1].a and same(w.slot(i)['key'], e[1].a[f])}
        g = {i for i in range(len(w.slots)) if w.ctx.check(s.pc, [z3.Not(w.slot(i)['signer'])], 5000) == z3.unsat}
        sg = g if sg is None else sg & g
        used = max(used, len(w.slots))
    return w, wr, sg, outs
def roles_hold(w, s, tag):
    """the accounts in the positions of the constructor can make the handler succeed"""
    q = [zb(w.slot(i)['signer']) for r, i in ROLES[tag].items() if r in SIGNERS[tag]] + [z3.Not(zb(w.slot(i)['signer'])) for r, i in ROLES[tag].items() if r not in SIGNERS[tag]]
    q += [zb(eq(w.slot(i)['key'], k)) for i, k in CONSTS.get(tag, {}).items()]
    ks = [zi(w.slot(i)['key']) for i in range(NSLOTS[tag])]
    q.append(z3.Distinct(*ks) if len(ks) > 1 else z3.BoolVal(True))
    R = ROLES[tag]
    def key(r): return w.slot(R[r])['key']
    if tag == FILL: q.append(zb(eq(key('auth'), leaf_var(f"D{R['pool']}", *POOL['fill_authority']))))
    elif tag == DISTRIBUTE: q.append(zb(eq(key('auth'), leaf_var(f"D{R['pool']}", *POOL['distribute_authority']))))
    elif 'auth' in R and tag != INIT_POOL: q.append(zb(eq(key('auth'), leaf_var(f"D{R['pool']}", *POOL['deposit_authority']))))
    if 'member' in R and tag != INIT_MINING:
        q.append(zb(eq(key('pool'), leaf_var(f"D{R['member']}", *MINE['pool']))))
        if 'owner' in R: q.append(zb(eq(key('owner'), leaf_var(f"D{R['member']}", *MINE['owner']))))
    return w.ctx.check(s.pc, q + sym.leaf_links(), 5000) != z3.unsat
def directions(c):
    """what tells apart accounts of the same kind"""
    t = c.tag
    if t == CHANGE:
        if c.other('old'): yield 'stake leaves the old delegate', le(c.post('old').sfo, c.pre('old').sfo)
        if c.other('new'): yield 'stake reaches the new delegate', le(c.pre('new').sfo, c.post('new').sfo)
    if t == CLOSE:
        i, j = c.roles['member'], c.roles['target']
        yield 'lamports leave the member account', or_(eq(c.key('member'), c.key('target')), and_(le(c.lam_post(i), c.lam_pre(i)), le(c.lam_pre(j), c.lam_post(j))))
    for kind, a, sg in c.cpis():
        if kind == 'transfer': yield 'tokens flow from the source position to the destination position', and_(eq(a['src'], c.key('source' if t == FILL else 'vault')), eq(a['to'], c.key('vault' if t == FILL else 'dest')))
        if kind == 'create_account': yield 'the payer position pays for the created position', and_(eq(a['src'], c.key('payer')), eq(a['to'], c.key('vault' if t == INIT_POOL else 'member')))
    if t == INIT_POOL and c.post('pool') is not None:
        yield 'the authority position becomes the deposit authority', eq(c.post('pool').deposit_authority, c.key('auth'))
        yield 'the mint position becomes the mint', eq(c.post('pool').mint, c.key('mint'))
def changed(name, o, n, x):
    if isinstance(x, TreeV):
        t = sym.values_tree(name, o, n); return t is None or x.t.key() != t.key()
    return not same(bint(x) if isinstance(x, BArr) else x, leaf_var(name, o, n))
def c23_ctor(u, dumpf, tag):
    k = u.find(r'^mplx_rewards::instruction::' + NAMES[tag] + '$')
    ts = u.argtys(k); ps = PARAMS[tag]
    if len(ts) != len(ps) + 1: raise Unsupported(f'{NAMES[tag]}: {len(ts)} parameters')
    w, wr, sg, outs = needs(dumpf, tag)
    if sg is None: raise Unsupported('no successful path')
    u.must('the handler can succeed with the accounts in these positions and these signatures', any(roles_hold(w, s, tag) for kind, s, v in outs if kind == 'ret' and sym.may_ok(v)))
    D = sym.Discharge(w)
    for c in sym.cases(w, outs, tag):
        o = list(directions(c))
        if o: D.prove(c, 'C23', o)
    u.r['obligations'] += D.n; u.r['discharged'] += D.n - len(D.failed); u.t += D.t
    u.r['failed'] += [dict(obligation=n, answer=a) for _, n, a in D.failed]
    for k2, v2 in D.backend.items(): u.r['backend'][k2] = u.r['backend'].get(k2, 0) + v2
    u.r['detail'] = f'written {sorted(wr)}, signing {sorted(sg)}'; u.w.used_fns |= w.used_fns; u.w.used_models |= w.used_models
    for some in ((True, False) if tag == SLASH else (True,)):
        st = u.state(); A = arg_values(u, st, tag); A['date'] = rng(var('arg_date'), 64)
        if 'period' in A: st.assume(le(A['period'], 4))
        for x in A:
            if x.endswith('period'): st.assume(le(A[x], 4))
        prog = var('par_program'); keys = {r: var('par_' + r) for r in ROLES[tag]}
        for v in [prog, *keys.values()]: RANGE_AX[v.decl().name()] = z3.And(v >= 0, v < 2**256)
        args = [as_value(u, st, ts[0], None, prog, some)]
        for t, p in zip(ts[1:], ps): args.append(as_value(u, st, t, p, keys[p[1:]] if p[0] == '@' else A[p], some))
        outs = u.run(st, k, args)
        u.must('the constructor always returns', bool(outs) and all(kind == 'ret' for kind, _, _ in outs))
        for kind, s, v in outs:
            if kind != 'ret': continue
            ns = [n for n, _ in u.w.T(u.d['fns'][k]['locals'][0])['variants'][0]['f']]
            I = dict(zip(ns, v.f))
            u.prove('addressed to the given program', s.pc, eq(models.pkval(u.w, I['program_id']), prog))
            check_wire(u, s, tag, A, some, I['data'])
            check_metas(u, s, tag, metas(I['accounts']), keys, wr, sg)
def check_wire(u, s, tag, A, some, data):
    if not isinstance(data, BArr): raise Unsupported('instruction data')
    ps = [(1, tag)] + [(n, A[x]) for x, n in ARGS[tag] if x != 'has_date']
    if tag == SLASH: ps += [(1, 1), (8, A['date'])] if some else [(1, 0)]
    same_bytes(u, s, 'data' + (', no date' if not some else ''), data, ps)
def check_metas(u, s, tag, ms, keys, wr, sg):
    """ms: (key, signer, writable) tuples of the account list; keys: role -> parameter"""
    u.must('all accounts of the instruction are listed', len(ms) >= NSLOTS[tag])
    pos = {i: r for r, i in ROLES[tag].items()}
    for i, m in enumerate(ms[:NSLOTS[tag]]):
        pkv, sig, wri = m.f
        if i in CONSTS.get(tag, {}): u.prove(f'account {i} is the published program or sysvar', s.pc, eq(models.pkval(u.w, pkv), CONSTS[tag][i]))
        else: u.prove(f'account {i} is the {pos[i]} parameter', s.pc, eq(models.pkval(u.w, pkv), keys[pos[i]]))
        nm = pos.get(i, 'constant')
        if nm in SIGNERS[tag] or i in sg: u.prove(f'account {i} ({nm}) signs', s.pc, sig)
        if nm in WRITTEN[tag] or i in wr: u.prove(f'account {i} ({nm}) is writable', s.pc, wri)

# ---------------------------------------------------------------- registry
def jobs(pid, dumpf, tier):
    if pid == 'C35': return refusal_jobs(dumpf, tier)
    if pid in TOTAL: return total_jobs(pid, dumpf, tier)
    if pid == 'C21': return [job(dumpf, f'LockupPeriod::{x}', c21, x) for x in ('multiplier', 'end_timestamp', 'days')]
    if pid == 'C22': return [job(dumpf, f'u{b}::safe_{o}', c22, b, o) for b in (64, 128) for o in ('add', 'sub', 'mul', 'div')]
    if pid == 'C12': return [job(dumpf, 'lemmas over the contracts', c12)]
    if pid == 'C25': return [job(dumpf, f'views of the {x} account', c25, x) for x in VIEWS]
    if pid == 'C23': return [job(dumpf, f'decode {NAMES[t]}', c23_decode, t) for t in range(12)] + [job(dumpf, 'decode: unknown instructions', c23_decode, None)] + [job(dumpf, f'constructor {NAMES[t]}', c23_ctor, dumpf, t) for t in sorted(range(12), key=lambda t: -(t in (4, 6, 9)))] + [job(dumpf, f'dispatch {NAMES[t]}', c23_dispatch, dumpf, t, 10000 if tier == 'quick' else 60000) for t in range(12)]
    if pid == 'C24':
        import client, build
        cf = build.dump('rewards', 'rewards')
        return [job(cf, f'client {NAMES[t]}', client.c24, dumpf, t) for t in sorted(range(12), key=lambda t: -(t in (4, 6, 9)))] + [job(dumpf, f'decode {NAMES[t]}', c23_decode, t) for t in range(12)]
    if pid == 'C32':
        import jsclient, build
        cf = build.dump('rewards', 'rewards')
        return [job(dumpf, f'JavaScript client: {w}', jsclient.c32_js, dumpf, w) for w in jsclient.FIELDS] + [job(cf, f'Rust client: {w}, {x}', jsclient.c32_rust, w, x) for w in jsclient.FIELDS for x in ('from_bytes', 'try_from')]
    if pid == 'C33':
        import jsclient
        return [job(dumpf, f'JavaScript client: {NAMES[t]}', jsclient.c33, dumpf, t) for t in sorted(range(12), key=lambda t: -(t in (4, 6, 9)))] + [job(dumpf, f'decode {NAMES[t]}', c23_decode, t) for t in range(12)]
    if pid == 'C34':
        import errors, build
        cf = build.dump('rewards', 'rewards')
        return [job(dumpf, 'errors of the program', errors.c34_rust, 'mplx_rewards::error::MplxRewardsError', True), job(cf, 'errors of the Rust client', errors.c34_rust, 'rewards::generated::errors::mplx_rewards::MplxRewardsError', False), job(dumpf, 'errors of the JavaScript client', errors.c34_js, dumpf)]
    return []
TOTAL = {'C29': [CLAIM, DISTRIBUTE], 'C30': list(range(12)), 'C35': list(range(12))}
def total_unit(u, tag, others, timeout):
    import total
    u.r['tag'] = tag
    total.entry_total(u, tag, others, timeout)
def refusal_jobs(dumpf, tier):
    import total, errors
    T = 10000 if tier == 'quick' else 60000
    a = [job(dumpf, f'{NAMES[t]}: refusals are true', errors.c35, t, T) for t in (CHANGE, EXTEND, WITHDRAW, DEPOSIT, SLASH, DECREASE, CLOSE, CLAIM, FILL, INIT_POOL, INIT_MINING, DISTRIBUTE)]
    b = [job(dumpf, f'{where(t, o)}: {l}', errors.precise, t, o, l, T) for t in range(12) for o in total.splits(t) for l, _, _ in errors.violated(t, o)]
    b.sort(key=lambda j: 'extend' not in j[2] or 'member schedule' not in j[2])
    return a[:2] + b[:2] + a[2:] + b[2:]
def where(t, o): return NAMES[t] + ''.join(f', {r} {"another account" if x else "the member itself"}' for r, x in o.items())
def total_jobs(pid, dumpf, tier):
    import total
    name = where
    return [job(dumpf, name(t, o), total_unit, t, o, 20000 if tier == 'quick' else 60000) for t in sorted(TOTAL[pid], key=lambda t: -(t in (EXTEND, CHANGE))) for o in total.splits(t)]
def native(exe, cs):
    import conc
    n = conc.Native(exe)
    try: return n.run(cs)
    finally: n.close()
def n21(exe, seed, tier, failed):
    """bounded: the table natively at every period and many start times"""
    import random
    g = random.Random(seed)
    xs = [0, 1, DAY - 1, DAY, DAY + 1, 2**62, 2**63 - 1] + [g.randrange(2**g.randrange(1, 63)) for _ in range(3000)]
    cs = [{'fn': 'lockup', 'period': p, 'start': str(x)} for x in xs for p in range(5)]
    for c, r in zip(cs, native(exe, cs)):
        p, x = c['period'], int(c['start'])
        want = dict(multiplier=str(MULT[p]), days=str(DAYS[p]) if p else 'refused', end_timestamp=str(x - x % DAY + DAYS[p]*DAY) if p else 'refused')
        got = {k: 'refused' if p == 0 and k != 'multiplier' and v == 'panic' else v for k, v in r.items()}
        if got != want: return dict(kind='function', input=c, answer=r, expected=want), dict(runs=len(cs))
    return None, dict(runs=len(cs))
def n25(exe, seed, tier, failed):
    """bounded: where the views point to natively, at data lengths around the layout's"""
    cs = [{'fn': 'views', 'which': w, 'len': n, 'fill': f} for w, L in (('pool', POOL_LEN), ('member', MINE_LEN)) for n in [L, L + 1, L + 8, L + 16, 2*L, 0, 1, L - 1, L - 8, L - 16, L // 2] for f in (0, 1, seed)]
    for c, r in zip(cs, native(exe, cs)):
        n, L = c['len'], POOL_LEN if c['which'] == 'pool' else MINE_LEN
        v = r['views']; bad = None
        if not r['unchanged']: bad = 'reading changes the data'
        for m in ('mut', 'imm'):
            if n < L and v[m] != 'refused': bad = 'short data accepted'
            if n == L and v[m] == 'refused': bad = 'data of the exact length refused'
            if v[m] != 'refused' and sorted(map(tuple, v[m].values())) != VIEWS[c['which']]['parts']: bad = 'the parts do not tile the account'
        if v['mut'] != 'refused' and v['imm'] != 'refused' and v['mut'] != v['imm']: bad = 'the views disagree'
        if bad: return dict(kind='function', input=c, answer=r, violated=[bad]), dict(runs=len(cs))
    return None, dict(runs=len(cs))
def natives(pid):
    import wirenat
    if pid in ('C32', 'C33', 'C34'):
        import jsnat
        return {'C32': [('account decoders', jsnat.n32)], 'C33': [('JavaScript client', jsnat.n33), ('program side', lambda *a: wirenat.n23(*a, False))], 'C34': [('error tables', jsnat.n34)]}[pid]
    return {'C21': [('lockup table', n21)], 'C25': [('views', n25)], 'C23': [('wire', wirenat.n23)], 'C24': [('client', wirenat.n24)]}.get(pid, [])
def trusted(pid):
    if pid in ('C32', 'C33', 'C34'):
        import jsclient
        return jsclient.TRUST
    return []
def matches(k, rec): return False
