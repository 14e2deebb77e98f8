"""Contracts of single functions.  Each is verified against the function's body (for all inputs) on every run, and only then used in
place of the body at the function's call sites; a contract the current body does not meet is not used (the body is followed instead)."""
import re
import z3
from terms import *
from values import *
import trees, models, interp, world
from trees import fold, credit, TTrunc, INF
from spec import DAY, MINE, POOL, day

SHARE, UNCL, SFO, INDEX = (MINE[f][0] for f in ('share', 'unclaimed', 'sfo', 'index'))

# ---------------------------------------------------------------- parts of arguments
def pointee(m, t):
    T = m.T(t)
    if T['k'] not in ('ref', 'ptr'): raise Unsupported('contract: signature')
    return T['e']
def fields_at(m, t):
    """{offset: field index} of a plain struct"""
    T = m.T(t)
    if T['k'] != 'adt' or T['adt'] != 'struct' or not T['lay']: raise Unsupported('contract: signature')
    offs = T['lay']['offsets']
    return {offs[i]: i for i in range(len(T['variants'][0]['f'])) if m.size(T['variants'][0]['f'][i][1])}
def split_wrapped(m, t, size):
    """field indices of the plain struct (of that size) and of the trees behind a wrapper of references"""
    st = None; tr = []
    for i, (n, ft) in enumerate(m.T(t)['variants'][0]['f']):
        e = pointee(m, ft)
        if m.is_tree(e): tr.append((i, e))
        elif m.size(e) == size: st = (i, e)
        else: raise Unsupported('contract: signature')
    if st is None: raise Unsupported('contract: signature')
    return st, tr
def sub_ptr(p, i): return Ptr(p.obj, p.path + (('f', i),))
def at(m, st, p): return m.read(st, p.obj, p.path)
def put(m, st, p, v): m.write(st, p.obj, p.path, v)
ERR = lambda: models.err(Opq('progerr'))

class Contract:
    name = ''; pat = ''; nargs = 0
    def key(self, d):
        ks = [k for k, f in d['fns'].items() if re.search(self.pat, f['name']) and f['body'] is not None and f['nargs'] == self.nargs]
        if len(ks) != 1: raise Unsupported(f'contract of {self.name}: {len(ks)} such functions')
        return ks[0]
    def tys(self, m, k): f = m.fns[k]; return f['locals'][1:1 + f['nargs']]

class Lookup(Contract):
    """Some(value at the greatest key below `key`) if there is such a key, else None; never fails"""
    name = 'find_max_value_limited_by_key'; pat = r'::find_max_value_limited_by_key(::<.*>)?$'; nargs = 2
    def verify(self, u, k):
        m = u.w; ts = self.tys(m, k); e = pointee(m, ts[0])
        if not m.is_tree(e): raise Unsupported('contract: signature')
        T = m.ctx.base_tree('gC', m.tree_cap(e), 2**m.T(m.T(e)['args'][1])['bits'] - 1)
        st = u.state(); key = rng(var('gkey'), 64)
        for kind, s, v in u.run(st, k, [tree_ref(u, st, e, T), u.passed(st, ts[1], key)]):
            if kind != 'ret': u.prove('never panics', s.pc, False); continue
            u.prove('found exactly if there is a key below', s.pc, iff(eq(v.d, 1), le(0, T.pk(key))))
            if 1 in v.alts: u.prove('the value at the greatest key below', s.pc, implies(eq(v.d, 1), eq(v.alts[1][0], T.val(T.pk(key)))))
            frame(u, s, {})
    def apply(self, m, st, k, a):
        T = at(m, st, a[0]); key = at(m, st, a[1]) if isinstance(a[1], Ptr) else a[1]
        if not isinstance(T, TreeV): return None
        p = T.t.pk(key)
        return [(st, models.opt(le(0, p), T.t.val(p)))]

class Credit(Contract):
    """unclaimed += floor((index at date - index) * weight / precision), index := index at date; fails exactly if a step does not fit its type"""
    name = 'Mining::update_index'; pat = r'mining::Mining::update_index$'; nargs = 5
    def terms(self, C, date, w, un, ix):
        v = C.idx(date); p = mul(sub(v, ix), w); r = div(p, P16)
        return v, add(un, r), and_(le(ix, v), le(p, 2**128 - 1), le(r, U64), le(add(un, r), U64))
    def verify(self, u, k):
        m = u.w; ts = self.tys(m, k); C = m.ctx.base_tree('gC', m.tree_cap(pointee(m, ts[0])), 2**128 - 1)
        st = u.state(); date, w, un = (rng(var('g' + x), 64) for x in ('date', 'w', 'un')); ix = rng(var('gix'), 128)
        pu, px = u.ref(st, un), u.ref(st, ix)
        v1, un1, fits = self.terms(C, date, w, un, ix)
        for kind, s, v in u.run(st, k, [tree_ref(u, st, pointee(m, ts[0]), C), date, w, pu, px]):
            if kind != 'ret': u.prove('never panics', s.pc, False); continue
            u.prove('succeeds exactly when every step fits', s.pc, iff(eq(v.d, 0), fits))
            okc = eq(v.d, 0)
            u.prove('credited exactly', s.pc, implies(okc, eq(at(m, s, pu), un1))); u.prove('index position moved', s.pc, implies(okc, eq(at(m, s, px), v1)))
            for c, why in s.lossy: u.prove(f'exact arithmetic: {why}', s.pc, implies(okc, not_(c)))
            frame(u, s, {pu.obj, px.obj}, okc)
    def apply(self, m, st, k, a):
        C = at(m, st, a[0]); un, ix = at(m, st, a[3]), at(m, st, a[4])
        v1, un1, fits = self.terms(C.t, a[1], a[2], un, ix)
        def yes(s): put(m, s, a[3], un1); put(m, s, a[4], v1); return [(s, models.ok())]
        return models.fork2(m, st, fits, yes, lambda s: [(s, ERR())])

class PoolConsume(Contract):
    """drops the reductions due by the day and returns the weight less their sum; fails exactly if they exceed it"""
    name = 'WrappedRewardPool::consume_old_modifiers'; pat = r'reward_pool::WrappedRewardPool::<.*>::consume_old_modifiers$'; nargs = 3
    def parts(self, m, k):
        w = pointee(m, self.tys(m, k)[0]); (i, pt), tr = split_wrapped(m, w, 176)
        d = [(j, t) for j, t in tr if m.T(m.T(t)['args'][1])['bits'] == 64]
        if len(d) != 1: raise Unsupported('contract: signature')
        return i, pt, d[0], tr
    def verify(self, u, k):
        m = u.w; i, pt, (j, dt), tr = self.parts(m, k)
        st = u.state(); dy, tot = rng(var('gday'), 64), rng(var('gtot'), 64)
        f = {i: buf_ref(u, st, pt, 'gP')}
        for n, t in tr: f[n] = tree_ref(u, st, t, m.ctx.base_tree(f'gT{n}', m.tree_cap(t), 2**m.T(m.T(t)['args'][1])['bits'] - 1))
        T = at(m, st, f[j]).t
        self_ = u.ref(st, Tup(f[n] for n in range(len(f))))
        for kind, s, v in u.run(st, k, [self_, dy, tot]):
            if kind != 'ret': u.prove('never panics', s.pc, False); continue
            okc = eq(v.d, 0)
            u.prove('fails exactly if the reductions exceed the weight', s.pc, iff(okc, le(T.S(dy), tot)))
            if 0 in v.alts: u.prove('weight less the reductions due', s.pc, implies(okc, eq(v.alts[0][0], sub(tot, T.S(dy)))))
            tree_is(u, s, 'schedule without the days due', at(m, s, f[j]).t, TTrunc(T, dy), okc)
            for c, why in s.lossy: u.prove(f'exact arithmetic: {why}', s.pc, implies(okc, not_(c)))
            frame(u, s, {f[j].obj}, okc)
    def apply(self, m, st, k, a):
        i, pt, (j, dt), tr = self.parts(m, k)
        p = at(m, st, sub_ptr(a[0], j)); T = at(m, st, p).t; s_ = T.S(a[1])
        def yes(s): put(m, s, p, TreeV(trunc(T, a[1]))); return [(s, models.ok(sub(a[2], s_)))]
        return models.fork2(m, st, le(s_, a[2]), yes, lambda s: [(s, ERR())])

class Settle(Contract):
    """settlement of one member against the index history: credited A(due days) + the share up to the latest index, weight less the reductions
    due, those days dropped, index position the latest index; never fails on a member that meets the accounting rules"""
    name = 'WrappedMining::refresh_rewards'; pat = r'mining::WrappedMining::<.*>::refresh_rewards$'; nargs = 2
    def parts(self, m, k):
        ts = self.tys(m, k); w = pointee(m, ts[0]); (i, mt), tr = split_wrapped(m, w, 144)
        if len(tr) != 1 or not m.is_tree(pointee(m, ts[1])): raise Unsupported('contract: signature')
        fo = fields_at(m, mt)
        if any(o not in fo for o in (SHARE, UNCL, SFO, INDEX)): raise Unsupported('contract: layout')
        return i, mt, tr[0], {o: fo[o] for o in (SHARE, UNCL, SFO, INDEX)}, pointee(m, ts[1])
    def terms(self, m, T, C, g):
        """g: {offset: value} before -> ({offset: value}, facts) after"""
        D = day(m.now); w0 = add(g[SHARE], g[SFO]); f = fold(T, C); v = C.idx(add(m.now, 1)); i1 = f.I(g[INDEX], D); A = f.A(w0, g[INDEX], D); s = T.S(D)
        q = credit(v, i1, w0, s)
        new = {SHARE: sub(g[SHARE], s), UNCL: add(g[UNCL], add(A, q)), INDEX: v}
        facts = [le(s, g[SHARE]), le(w0, U64), le(0, A), le(i1, v), le(g[INDEX], i1), le(mul(sub(v, i1), sub(w0, s)), 2**128 - 1), le(0, q), le(new[UNCL], U64)]
        return new, facts
    def generic(self, u, k):
        m = u.w; i, mt, (j, dt), fo, ct = self.parts(m, k)
        st = u.state()
        T = m.ctx.base_tree('D1@144', m.tree_cap(dt)); C = m.ctx.base_tree('D0@11888', m.tree_cap(ct), 2**128 - 1)
        vals = {o: leaf_var('D1', o, z) for o, z in ((SHARE, 8), (UNCL, 8), (SFO, 8), (INDEX, 16))}
        pm, pt, pc = buf_ref(u, st, mt, 'D1'), tree_ref(u, st, dt, T), tree_ref(u, st, ct, C)
        f = {i: pm, j: pt}
        return st, k, [u.ref(st, Tup(f[n] for n in range(2))), pc], (vals, fo, T, C, pm, pt)
    def verify(self, u, k):
        m = u.w; st, k, args, (vals, fo, T, C, pm, pt) = self.generic(u, k)
        new, facts = self.terms(m, T, C, vals)
        for kind, s, v in u.run(st, k, args):
            if kind != 'ret' or isc(v.d) and v.d != 0: continue
            s = s.fork(); s.assume(eq(v.d, 0))
            for o, n in fo.items(): u.prove(f'field at {o} of the settled member', s.pc, eq(at(m, s, sub_ptr(pm, n)), new.get(o, vals[o])))
            for o, (n, v) in s.mem[pm.obj].lv.items():
                if o not in fo: u.prove(f'field at {o} untouched', s.pc, eq(bint(v) if isinstance(v, BArr) else v, leaf_var('D1', o, n)))
            for q in facts: u.prove('range facts', s.pc, q)
            tree_is(u, s, 'schedule without the days due', at(m, s, pt).t, TTrunc(T, day(m.now)))
            for c, why in s.lossy: u.prove(f'exact arithmetic: {why}', s.pc, not_(c))
            frame(u, s, {pm.obj, pt.obj})
    def apply(self, m, st, k, a):
        i, mt, (j, dt), fo, ct = self.parts(m, k)
        pm, pt = at(m, st, sub_ptr(a[0], i)), at(m, st, sub_ptr(a[0], j)); T, C = at(m, st, pt), at(m, st, a[1])
        if not isinstance(T, TreeV) or not isinstance(C, TreeV): return None
        T, C = T.t, C.t
        g = {o: at(m, st, sub_ptr(pm, n)) for o, n in fo.items()}
        total = m.keep_fail
        if total and not getattr(m, 'ready', lambda *x: False)(T, C, g): return None       # the clause "never fails" is not applicable
        st = st.fork()
        new, facts = self.terms(m, T, C, g)
        for q in facts: st.assume(q)
        D = day(m.now); f = fold(T, C)       # by the definition of A and I
        st.assume(implies(lt(T.pk(add(D, 1)), 0), and_(eq(f.A(add(g[SHARE], g[SFO]), g[INDEX], D), 0), eq(f.I(g[INDEX], D), g[INDEX]))))
        for o, v in new.items(): put(m, st, sub_ptr(pm, fo[o]), v)
        put(m, st, pt, TreeV(trunc(T, day(m.now))))
        return [(st, models.ok())] + ([] if total else [(st.fork(), ERR())])

def tree_ref(u, st, t, T):
    """reference to a tree of type t lying in account memory"""
    k = u.w.new_obj(st, Buf(f'g{T!r}', u.w.size(t), {0: (u.w.size(t), TreeV(T))}), 'G')
    return Ptr(k, (('v', 0, t),))
def buf_ref(u, st, t, name):
    """reference to a plain struct of type t lying in account memory"""
    return Ptr(u.w.new_obj(st, Buf(name, u.w.size(t)), 'G'), (('v', 0, t),))
def trunc(T, c):
    t = TTrunc(T, c); RANGE_AX[t.sz.decl().name()] = zb(and_(le(0, t.sz), le(t.sz, T.size())))
    return t
def tree_is(u, s, what, T2, T1, okc=True):
    x = fresh('day'); rng(x, 64)
    u.prove(f'{what}: same days', s.pc, implies(okc, iff(T2.has(x), T1.has(x)))); u.prove(f'{what}: same values', s.pc, implies(and_(okc, T1.has(x)), eq(T2.val(x), T1.val(x))))
    u.prove(f'{what}: no more days', s.pc, implies(okc, le(T2.size(), T1.t.size())))
def frame(u, s, written, okc=True):
    """nothing but the listed objects changes, no cross-program calls"""
    start = u.start_mem
    for k, v in start.items():
        if k in written: continue
        if k in s.mem and (veq(v, s.mem[k]) or isinstance(v, Buf) and all(o in v.lv and veq(v.lv[o][1], x) or o not in v.lv and not isinstance(x, (Tup, TreeV)) and same(bint(x) if isinstance(x, BArr) else x, leaf_var(v.name, o, n)) for o, (n, x) in s.mem[k].lv.items())): continue
        u.must(f'object {k} untouched', k not in s.mem)
    u.must('no cross-program calls', not [e for e in s.log if e[0] == 'cpi'])

ALL = [Lookup(), Credit(), PoolConsume(), Settle()]
BYNAME = {c.name: c for c in ALL}

def install(m, names, but=None):
    """use the contracts at call sites of machine m"""
    for n in names:
        if n == but: continue
        c = BYNAME[n]
        try: k = c.key(m.d)
        except Unsupported: continue
        def f(m, st, args, c=c, k=k):
            try: return c.apply(m, st, k, args)
            except (Unsupported, AttributeError, IndexError, KeyError): return None
        m.summaries[k] = f

USE = ()      # contracts the current run has verified
TOTAL = ()    # and of those the ones shown to succeed and end on well-formed states

def establish(dumpf, pool, extra):
    """verifies all contracts, each relying on the others (the call graph has no cycles) -> (names accepted, unit results)"""
    names = [c.name for c in ALL]; res = {}
    todo = names; deps = names
    for rnd in range(3):
        for n, r in zip(todo, pool([(extra.guarded, ('contract of ' + n, verify, dumpf, n, tuple(deps)), n) for n in todo], limit=120)): res[n] = r
        good = [n for n in names if not res[n]['failed'] and not res[n]['unsupported']]
        while True:
            g2 = [n for n in good if set(res[n].get('deps', [])) <= set(good)]
            if g2 == good: break
            good = g2
        todo = [n for n in names if n not in good and set(res[n].get('deps', [])) - set(good)]      # relied on a contract that is not met
        if not todo: break
        deps = good
    return tuple(good), [res[n] for n in names]

def verify(u, name, deps):
    """the function's body meets its contract; calls of `deps` go to their contracts"""
    c = BYNAME[name]; k = c.key(u.d)
    u.w.keep_fail = True
    if name == 'WrappedMining::refresh_rewards': u.w.keep_fail = False
    install(u.w, deps, but=name)
    st0 = u.state
    def run(st, k, args):
        u.start_mem = dict(st.mem)
        return u.w.call_body(st, k, args)
    u.run = run
    c.verify(u, k)
    u.r['contract_of'] = u.w.fns[k]['name']; u.r['deps'] = sorted(n for n in deps if n != name and any(BYNAME[n].key(u.d) == q for q in u.w.used_summaries))

def settle_total(u, deps):
    """settling a member that meets the accounting rules never fails, and ends"""
    import total
    c = BYNAME['WrappedMining::refresh_rewards']; k = c.key(u.d)
    u.w.keep_fail = True
    install(u.w, [d for d in deps if d != c.name])
    st, k, args, (vals, fo, T, C, pm, pt) = c.generic(u, k)
    H = total.generic_rules(u.w, T, C, dict(share=vals[SHARE], unclaimed=vals[UNCL], sfo=vals[SFO], index=vals[INDEX]))
    u.w.ctx.assume += H
    if u.w.ctx.check((), (), 5000) == z3.unsat: raise Unsupported('the rules contradict each other')
    total.no_failure(u, u.w.call_body(st, k, args))
    u.r['contract_of'] = u.w.fns[k]['name']
    u.r['deps'] = sorted(n for n in deps if n != c.name and any(BYNAME[n].key(u.d) == q for q in u.w.used_summaries))
