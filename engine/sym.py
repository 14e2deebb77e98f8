"""Symbolic cases: one successful outcome of the verifier, for all inputs at once; and the discharge of obligations."""
import sys, time, re
import z3
from terms import *
from values import *
import trees, models, interp, world, spec
from trees import INF
from spec import *

class BadShape(Exception): pass

def entry_point(dump):
    """the function the exported entrypoint hands the deserialized accounts to"""
    own = lambda k: k in dump['fns'] and dump['fns'][k]['name'].startswith('mplx_rewards::') and dump['fns'][k]['nargs'] == 3
    for f in dump['fns'].values():
        if f['name'] == 'mplx_rewards::entrypoint::entrypoint' and f['body']:
            c = {x for b in f['body'] for x in callees(b) if own(x)}
            if len(c) == 1: return c.pop()
    c = [k for k, f in dump['fns'].items() if f['name'].endswith('instructions::process_instruction')]
    if len(c) != 1: raise Unsupported('no entry point')
    return c[0]
def callees(x):
    if isinstance(x, str): yield x
    elif isinstance(x, list):
        for y in x: yield from callees(y)
    elif isinstance(x, dict):
        for y in x.values(): yield from callees(y)
SUMMARISED = set()
def run_entry(dump, tag, keep_fail=False, hooks=None, entry=None, use=None):
    """symbolic execution of the dispatcher on instruction `tag` with unconstrained accounts, arguments and clock"""
    ctx = interp.Ctx()
    w = world.World(dump, ctx, keep_fail)
    ctx.assume.append(z3.And(zi(w.program_id) != SYSTEM, zi(w.program_id) != SPL))
    if hooks: w.hooks.update(hooks)
    import contracts
    contracts.install(w, contracts.USE if use is None else use)
    st = w.start(tag=tag)
    pi = [k for k, f in dump['fns'].items() if f['name'].endswith(entry)] if entry else [entry_point(dump)]
    if not pi: raise Unsupported(f'no entry point {entry}')
    outs = w.call(st, pi[0], [Ptr(('prog',)), Ptr(('accs',), (), 0, w.nacc), Ptr(('IX',), (), 0, st.mem[('IX',)].len)])
    SUMMARISED.update(w.fns[k]['name'] for k in w.used_summaries)
    return w, outs
def is_ok(v): return isinstance(v, Enm) and isc(v.d) and v.d == 0
def may_ok(v): return not (isinstance(v, Enm) and isc(v.d) and v.d != 0)

def cases(w, outs, tag):
    """successful outcomes, split over whether delegate accounts are the member's own"""
    res = []
    for kind, s, v in outs:
        if kind != 'ret': continue
        if not isinstance(v, Enm): raise Unsupported('result of the entry point')
        if isc(v.d) and v.d != 0: continue
        if not isc(v.d): s = s.fork(); s.assume(eq(v.d, 0))
        subs = [(s, {})]
        km = None
        for r in ('delegate', 'old', 'new'):
            if r not in ROLES[tag]: continue
            km = w.slot(ROLES[tag]['member'])['key']; kr = w.slot(ROLES[tag][r])['key']
            nxt = []
            for s1, o in subs:
                for other in (True, False):
                    c = ne(kr, km) if other else eq(kr, km)
                    s2 = s1.fork(); s2.assume(c)
                    if w.ctx.feasible(s2.pc): nxt.append((s2, {**o, r: other}))
            subs = nxt
        for s2, o in subs: res.append(SymCase(w, s2, tag, o))
    return res

class SymCase:
    concrete = False
    def __init__(self, w, st, tag, others):
        self.w, self.st, self.tag, self.others = w, st, tag, others
        self.now, self.prog = w.now, w.program_id
        self.roles = ROLES[tag]
        self.hyp = []; self.facts = []; self.lemmas = []
        self._pre, self._post = {}, {}
        off, end = arg_offsets(tag)
        self.args = {n: leaf_var('IX', o, s) for n, (o, s) in off.items()}
        if tag == SLASH: self.args['date'] = leaf_var('IX', end, 8)
        self._hist = False
    # -- accounts
    def rep(self, i): return self.st.mem.get(('alias', i), i)
    def nslots(self): return NSLOTS[self.tag]
    def slot(self, i): return self.w.slot(i)
    def role_slot(self, r): return self.slot(self.roles[r])
    def key(self, r): return self.slot(self.roles[r])['key']
    def owner(self, r): return self.slot(self.roles[r])['owner']
    def length(self, r): return self.slot(self.roles[r])['len']
    def other(self, r): return self.others[r]
    def _tab(self, role): return (POOL, POOL_T, POOL_LEN) if role == 'pool' else (MINE, MINE_T, MINE_LEN)
    def base(self, name, off, cap, maxv):
        n = f'{name}@{off}'
        return self.w.ctx.base_tree(n, cap, maxv)
    def pre(self, role):
        if role not in self._pre:
            tab, tt, _ = self._tab(role); name = f'D{self.rep(self.roles[role])}'
            r = {f: leaf_var(name, o, s) for f, (o, s) in tab.items()}
            for t, (o, s, cap, mx) in tt.items():
                r[t] = self.base(name, o, cap, mx)
            self._pre[role] = Rec(r)
        return self._pre[role]
    def post(self, role):
        if role in self._post: return self._post[role]
        tab, tt, ln = self._tab(role); rep = self.rep(self.roles[role]); name = f'D{rep}'
        k = ('D', rep)
        b = self.st.mem.get(k)
        if b is None: r = Rec({**self.pre(role).__dict__, 'init_diffs': True, 'init_hist': True})
        else:
            if isc(b.len) and b.len != ln: self._post[role] = None; return None
            s = self.st.fork(); r = {}
            for f, (o, n) in tab.items(): r[f] = bint(self.w.bytes_at(s, k, o, n))
            for t, (o, n, cap, mx) in tt.items():
                b = s.mem[k]
                if o in b.lv and b.lv[o][0] == n and isinstance(b.lv[o][1], TreeV): T = b.lv[o][1].t
                elif any(a < o + n and o < a + z for a, (z, _) in b.lv.items()): raise Unsupported('tree memory written bytewise')
                elif b.zero: T = trees.TEmpty(cap, False)
                elif b.name == name: T = self.base(name, o, cap, mx)
                else: raise Unsupported('tree memory of a replaced account')
                r[t] = T; r['init_' + t] = not (isinstance(T, trees.TEmpty) and not T.init)
            r = Rec(r)
        self._post[role] = r
        return r
    def wiped(self, role):
        b = self.st.mem.get(('D', self.rep(self.roles[role])))
        if b is None or not b.zero: return False
        g = []
        for o, (n, v) in b.lv.items():
            if isinstance(v, TreeV): g.append(isinstance(v.t, trees.TEmpty) and not v.t.init)
            else: g.append(eq(bint(v) if isinstance(v, BArr) else v, 0))
        return and_(*g)
    def post_owner(self, role):
        v = self.st.mem.get(('owner', self.roles[role]))
        return models.pkval(self.w, v) if v is not None else self.owner(role)
    def lam_pre(self, i): return rng(var(f'lamports{self.rep(i)}'), 64)
    def lam_post(self, i):
        k = ('LAM', self.rep(i))
        return self.st.mem[k] if k in self.st.mem else self.lam_pre(i)
    def token_owner(self, role): return leaf_var(f'D{self.rep(self.roles[role])}', 32, 32)
    def pda(self, *ch):
        return models.pda(self.w, list(ch), self.prog)[0]
    def derived(self, r, *ch):
        f, okf = models.pda(self.w, list(ch), self.prog); return and_(eq(self.key(r), f), okf)
    @property
    def nacc(self): return self.w.nacc
    def rent(self, n): return models.rentmin(zi(n))
    def cpis(self): return [(e[1].kind, e[1].a, list(e[3])) for e in self.st.log if e[0] == 'cpi']
    def ret(self):
        x = [e[1] for e in self.st.log if e[0] == 'ret']
        return (x[-1].n, bint(x[-1])) if x else None
    def _frame(self, rep, what):
        b = self.st.mem.get(('D', rep))
        if b is None: return
        name = f'D{rep}'
        if b.name != name or b.zero and not any(e.name == name and e.zero for e in [b]): yield f'{what} unchanged', False; return
        if b.zero: 
            return   # only reachable when the account was checked to be all zero
        yield f'{what} keeps its length', eq(b.len, self.slot(rep)['len'])
        for o, (n, v) in b.lv.items():
            if isinstance(v, TreeV):
                T0 = values_tree(name, o, n)
                if T0 is None: yield f'{what} unchanged', False; continue
                if v.t.key() == T0.key(): continue
                for x in self.keys(v.t, T0):
                    yield f'{what} unchanged', and_(iff(v.t.has(x), T0.has(x)), implies(T0.has(x), eq(v.t.val(x), T0.val(x))))
            else: yield f'{what} unchanged', eq(bint(v) if isinstance(v, BArr) else v, leaf_var(name, o, n))
    def frame(self, role, what): return list(self._frame(self.rep(self.roles[role]), what))
    def frame_slot(self, i, what): return list(self._frame(self.rep(i), what))
    def keys(self, *ts):
        x = fresh('day'); rng(x, 64)
        return [x]
    def days(self):
        x = fresh('d'); RANGE_AX[x.decl().name()] = x >= 0
        return [x]
    def need(self, what):
        if what == 'hist' and 'pool' in self.roles and not self._hist:
            self._hist = True
            P = self.pre('pool'); D = day(self.now); C = P.hist
            x, y = z3.Ints('x y')
            self.hyp.append(z3.ForAll([x], z3.Implies(C.h(x), x <= D), patterns=[C.h(x)]))
            self.hyp.append(z3.ForAll([x, y], z3.Implies(z3.And(C.h(x), C.h(y), x <= y), C.v(x) <= C.v(y)), patterns=[z3.MultiPattern(C.h(x), C.h(y))]))
            self.hyp.append(zb(eq(P.index, C.idx(INF))))
            self.need_lemmas = [and_(eq(C.pk(add(self.now, 1)), C.pk(add(D, 1))), eq(C.idx(add(self.now, 1)), C.idx(add(D, 1))))]
    def fold_lemma(self, T, C, D):
        """obligation: no key of T is due; on it rests that the settlement of T credits nothing up to D"""
        if isinstance(T, (trees.TBase,)): pass
        x = fresh('day'); rng(x, 64)
        self.after = getattr(self, 'after', [])
        f = fold(T, C)
        yield or_(lt(D, x), not_(T.has(x)))
        for q in f.gap(-1, add(D, 1)): self.facts.append(q)
    def lossless(self):
        for c, why in self.st.lossy:
            yield f'exact arithmetic: {why}', not_(c)

def values_tree(name, off, size):
    import values
    return values._tree_leaf.get((name, off, size))

# ---------------------------------------------------------------- leaves of the same bytes under different names
_leaf = re.compile(r'^(.*)@(\d+)\.(\d+)$')
def leaf_links():
    by = {}
    for n in list(RANGE_AX):
        m = _leaf.match(n)
        if m: by.setdefault(m.group(1), []).append((int(m.group(2)), int(m.group(3)), n))
    out = []
    for name, ls in by.items():
        ls.sort()
        for i, (o, s, n) in enumerate(ls):
            for o2, s2, n2 in ls:
                if n2 != n and o <= o2 and o2 + s2 <= o + s:
                    out.append(z3.Int(n2) == (z3.Int(n) / z3.IntVal(1 << (8*(o2-o)))) % z3.IntVal(1 << (8*s2)) )
    return out

class Discharge:
    """proves the obligations of one property on one case"""
    def __init__(self, w): self.w = w; self.n = 0; self.t = 0.0; self.failed = []; self.backend = {}; self.hints = []
    def prove(self, c, pid, obls, timeout=10000):
        t0 = time.time()
        goals = []
        for name, g in obls:
            if isinstance(g, bool): 
                goals.append((name, g)); continue
            g = z3.simplify(zb(g)) if False else g
            goals.append((name, g))
        self.n += len(goals)
        bad = []
        todo = []
        for name, g in goals:
            if g is True: self.backend['trivial'] = self.backend.get('trivial', 0) + 1
            elif g is False: todo.append((name, z3.BoolVal(False)))
            else: todo.append((name, zb(g)))
        n0 = len(todo)
        if todo:
            s = self.w.ctx.solver(c.st.pc, list(c.hyp) + list(c.facts) + leaf_links(), timeout)
            todo = [('lemma: nothing is recorded after today', zb(g)) for g in getattr(c, 'need_lemmas', [])] + todo; self.n += len(todo) - n0
            for name, g in todo:
                s.push(); s.add(z3.Not(g))
                r = s.check()
                mdl = None
                if r != z3.unsat:
                    try: mdl = s.model()
                    except z3.Z3Exception: pass
                s.pop()
                lemma = name.startswith('lemma:')
                if lemma and r == z3.unsat: s.add(g); c.lemmas.append(g)
                if lemma and r != z3.unsat: self.n -= 1; continue
                if r == z3.unsat: self.backend['z3'] = self.backend.get('z3', 0) + 1
                else:
                    r = self.retry(c, g, timeout)
                    if r == z3.unsat: self.backend['z3 (retry)'] = self.backend.get('z3 (retry)', 0) + 1
                    else:
                        bad.append((name, str(r)))
                        if mdl is not None and len(self.hints) < 12:
                            try: self.hints.append(hint(c, mdl))
                            except Exception: pass
        self.t += time.time() - t0
        for b in bad: self.failed.append((c, b[0], b[1]))
        return bad
    def retry(self, c, g, timeout):
        for seed in (1, 2):
            s = self.w.ctx.solver(c.st.pc, list(c.hyp) + list(c.facts) + c.lemmas + leaf_links() + [z3.Not(g)], timeout * 2)
            s.set('random_seed', seed); s.set('smt.random_seed', seed)
            if seed == 2: s.set('smt.arith.solver', 2)
            r = s.check()
            if r == z3.unsat: return r
        return r

def hint(c, mdl):
    """the solver's candidate counterexample, as field values by account position"""
    h = dict(tag=c.tag, args={}, accs={})
    off, end = arg_offsets(c.tag)
    args = {(o, s): n for n, (o, s) in off.items()}
    if c.tag == SLASH: args[(end, 8)] = 'date'
    tabs = {}
    for role, i in c.roles.items():
        if role == 'pool': tabs[f'D{c.rep(i)}'] = (i, POOL, POOL_T)
        elif role in ('member', 'delegate', 'old', 'new'): tabs.setdefault(f'D{c.rep(i)}', (i, MINE, MINE_T))
    for d in mdl.decls():
        n = d.name()
        if n == 'NOW': h['now'] = max(0, min(2**63-1, mdl[d].as_long())); continue
        m = _leaf.match(n)
        if m:
            o, s = int(m.group(2)), int(m.group(3)); v = mdl[d].as_long()
            if m.group(1) == 'IX' and (o, s) in args: h['args'][args[o, s]] = v
            elif m.group(1) in tabs:
                i, tab, _ = tabs[m.group(1)]
                for f, p in tab.items():
                    if p == (o, s) and s in (8, 16): h['accs'].setdefault(str(i), {}).setdefault('rec', {})[f] = v
            continue
        m = re.match(r'^has_(.*)@(\d+)$', n)
        if m and m.group(1) in tabs:
            i, _, tt = tabs[m.group(1)]
            t = next((t for t, p in tt.items() if p[0] == int(m.group(2))), None)
            if t is None: continue
            ks = set()
            fi = mdl[d]
            ks = {fi.entry(j).arg_value(0).as_long() for j in range(fi.num_entries())}
            for e in mdl.decls():
                if e.arity() == 0 and re.match(r'^(nk|pk|c|g|day|d)!', e.name()) and z3.is_int_value(mdl[e]): ks.add(mdl[e].as_long())
            ks |= {day(h.get('now', 0))}
            vf = z3.Function('val_' + m.group(1) + '@' + m.group(2), Z, Z); hf = z3.Function(n, Z, z3.BoolSort())
            es = []
            for k in sorted(ks):
                if 0 <= k <= U64 and z3.is_true(mdl.eval(hf(k), True)): es.append([k, min(mdl.eval(vf(k), True).as_long(), U64 if t == 'diffs' else 2**128-1)])
            h['accs'].setdefault(str(i), {})[t] = es[:45]
    return h
