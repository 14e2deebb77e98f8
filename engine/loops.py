"""Control-flow analysis, and loops: unrolled while deterministic, otherwise cut by an inductive invariant that is
inferred (Houdini over a fixed family of candidate predicates) and checked (initiation, preservation) by the solver."""
import os, sys, time
import z3
from terms import *
from values import *
import trees

class Info: pass

def succs(t):
    k = t[0]
    if k == 'goto': return [t[1]]
    if k == 'switch': return [bb for _, bb in t[2]] + [t[3]]
    if k == 'call': return [t[4]] if t[4] is not None else []
    if k == 'assert': return [t[4]]
    if k == 'drop': return [t[2]]
    return []

def place_uses(p, w):
    """locals used by evaluating place p (base counts as used when projected)"""
    u = set()
    if p[1] or not w: u.add(p[0])
    for e in p[1]:
        if isinstance(e, list) and e[0] == 'i': u.add(e[1])
    return u
def op_uses(o):
    return place_uses(o[1], False) if o[0] in ('cp', 'mv') else set()
def rv_uses(r, taken):
    k = r[0]; u = set()
    if k in ('ref', 'addr'):
        u |= place_uses(r[1], False)
        if not any(e == '*' for e in r[1][1]): taken.add(r[1][0])
        return u
    if k in ('len', 'discr'): return place_uses(r[1], False)
    def walk(x):
        nonlocal u
        if isinstance(x, list):
            if len(x) == 2 and x[0] in ('cp', 'mv') and isinstance(x[1], list): u |= op_uses(x); return
            for y in x: walk(y)
    walk(r[1:])
    return u

def analyse(f):
    body = f['body']; n = len(body)
    info = Info()
    order, seen = [], set()
    stack = [(0, iter(succs(body[0][1])))]; seen.add(0)
    while stack:
        b, it = stack[-1]
        for s in it:
            if s not in seen: seen.add(s); stack.append((s, iter(succs(body[s][1])))); break
        else: order.append(b); stack.pop()
    rpo = {b: i for i, b in enumerate(reversed(order))}
    info.rpo = rpo
    preds = {b: [] for b in seen}
    for b in seen:
        for s in succs(body[b][1]): preds[s].append(b)
    info.loops = {}
    for b in seen:
        for s in succs(body[b][1]):
            if rpo[s] <= rpo[b]:
                blk = info.loops.setdefault(s, {s})
                w = [b]
                while w:
                    x = w.pop()
                    if x in blk: continue
                    blk.add(x); w += preds[x]
    # liveness
    taken = set(); use, dfn = {}, {}
    for b in seen:
        u, d = set(), set()
        def use_(xs):
            for x in xs:
                if x not in d: u.add(x)
        for s in body[b][0]:
            if s[0] == '=':
                use_(rv_uses(s[2], taken)); use_(place_uses(s[1], True))
                if not s[1][1]: d.add(s[1][0])
            elif s[0] in ('dead', 'live'): d.add(s[1])
            elif s[0] == 'setd': use_(place_uses(s[1], False))
            elif s[0] == 'assume': use_(op_uses(s[1]))
        t = body[b][1]
        if t[0] == 'switch': use_(op_uses(t[1]))
        elif t[0] == 'call':
            if isinstance(t[1], list): use_(op_uses(t[1][1]))
            for a in t[2]: use_(op_uses(a))
            use_(place_uses(t[3], True))
            if not t[3][1]: d.add(t[3][0])
        elif t[0] == 'assert': use_(op_uses(t[1]))
        elif t[0] == 'drop': use_(place_uses(t[1], False))
        elif t[0] == 'ret': use_({0})
        use[b], dfn[b] = u, d
    live = {b: set(use[b]) for b in seen}
    ch = True
    while ch:
        ch = False
        for b in order:
            o = set()
            for s in succs(body[b][1]): o |= live[s]
            x = use[b] | (o - dfn[b])
            if x != live[b]: live[b] = x; ch = True
    info.live = {b: live[b] | taken for b in seen}
    info.taken = taken
    return info

MAXUNROLL = 300

def run_loop(m, fr, st, header):
    info = m.cfg(fr.inst); blocks = info.loops[header]
    saved = m.sym_iter
    states, outs, exits = [st.fork()], [], []
    try:
        for it in range(MAXUNROLL):
            m.sym_iter = False
            o, e, b = m.region(fr, [(header, s) for s in states], header, blocks)
            if m.sym_iter: return Inv(m, fr, st, header, blocks).run()
            outs += o; exits += e
            if not b: return outs, exits
            states = m.merge_list(b, fr, header)
        raise Unsupported('loop not bounded by unrolling')
    finally: m.sym_iter = saved

SKIP = ('A', 'S')

class Inv:
    """one symbolic loop"""
    def __init__(self, m, fr, st, header, blocks):
        self.m, self.fr, self.header, self.blocks = m, fr, header, blocks
        self.entry = st
        self.info = m.cfg(fr.inst)
        for k in [k for k in st.mem if k[0] == 'L' and k[1] == fr.id and k[2] not in self.info.live[header]]: del st.mem[k]
        self.mods = {}     # (key, path) -> leaf record
        self.known = set(st.mem)
    # -- leaves
    def diff(self, key, path, a, b, out):
        """leaf positions where b differs from a"""
        if a is b or veq(a, b): return
        if isinstance(a, Val) and type(a) is type(b):
            if isinstance(a, Tup) and len(a.f) == len(b.f):
                for i, (x, y) in enumerate(zip(a.f, b.f)): self.diff(key, path + (('f', i),), x, y, out)
                return
            if isinstance(a, Enm):
                if not same(a.d, b.d): out.append((key, path + (('disc',),), 'disc', a, b))
                for v in b.alts:
                    if v in a.alts:
                        for i, (x, y) in enumerate(zip(a.alts[v], b.alts[v])): self.diff(key, path + (('a', v, i),), x, y, out)
                    else: out.append((key, path + (('disc',),), 'disc', a, b))
                return
            if isinstance(a, Buf) and a.name == b.name:
                for o in b.lv:
                    sz, y = b.lv[o]
                    if o in a.lv: x = a.lv[o][1]
                    else: x = s_init(a, o, b.lv[o])
                    if x is None: raise Unsupported('buffer in loop')
                    if o in a.lv and a.lv[o][0] != sz: raise Unsupported('buffer reshaped in loop')
                    self.diff(key, path + (('b', o, sz),), x, y, out)
                return
            if isinstance(a, TIter) and veq(a.p, b.p):
                for fld in ('lo', 'hi'):
                    if not same(getattr(a, fld), getattr(b, fld)): out.append((key, path + (('attr', fld),), 'cursor', a, b))
                return
            if isinstance(a, VIter) and veq(a.v, b.v) and a.pos == b.pos:
                out.append((key, path + (('attr', 'kpos'),), 'cursor', a, b)); return
            if isinstance(a, Node) and veq(a.p, b.p):
                for fld in ('lo', 'hi'):
                    if not same(getattr(a, fld), getattr(b, fld)): out.append((key, path + (('attr', fld),), 'cursor', a, b))
                return
            if isinstance(a, Vec): out.append((key, path, 'vec', a, b)); return
            if isinstance(a, TreeV): out.append((key, path, 'tree', a, b)); return
            if isinstance(a, Opq): return
            if isinstance(a, Ptr) and isinstance(b, Ptr) and veq(a.meta, b.meta) and veq(a.off, b.off):
                if a.obj == b.obj and len(a.path) == len(b.path) and a.path and peq(a.path[:-1], b.path[:-1]) and a.path[-1][0] == b.path[-1][0] == 'tval':
                    out.append((key, path + (('tk',),), 'int', a.path[-1][1], b.path[-1][1])); return
                if self.own_ref(self.sa, a) and self.own_ref(self.sb, b):
                    x, y = self.sa.mem[a.obj], self.sb.mem[b.obj]
                    if not isinstance(x, Val) and not isinstance(y, Val):
                        if not same(x, y): out.append((key, path + (('oref',),), 'int', x, y))
                        return
            if isinstance(a, BArr) and a.n == b.n and len(a.ch) == len(b.ch):
                raise Unsupported('byte array modified in loop')
        if not isinstance(a, Val) and not isinstance(b, Val) and isb(a) == isb(b):
            out.append((key, path, 'bool' if isb(a) else 'int', a, b)); return
        raise Unsupported(f'loop modifies {a!r} -> {b!r} at {key}{path}'[:260])
    def own_ref(self, s, p): return p.obj[0] == 'O' and not p.path and p.meta is None and p.obj in s.mem
    def get(self, v, path, s=None):
        for e in path:
            if v is None: return None
            if e[0] == 'tk': v = v.path[-1][1]; continue
            if e[0] == 'oref': v = s.mem[v.obj]; continue
            k = e[0]
            if k == 'f': v = v.f[e[1]]
            elif k == 'a': v = v.alts[e[1]][e[2]] if e[1] in v.alts else None
            elif k == 'b': v = v.lv[e[1]][1] if e[1] in v.lv else s_init(v, e[1], (e[2], 0))
            elif k == 'disc': v = v.d
            elif k == 'attr': v = getattr(v, e[1])
        return v
    def put(self, v, path, x, s=None):
        if not path: return x
        e = path[0]; k = e[0]
        if k == 'tk': return Ptr(v.obj, v.path[:-1] + (('tval', x),), v.off, v.meta)
        if k == 'oref': return Ptr(self.m.new_obj(s, x))
        if k == 'f':
            f = list(v.f); f[e[1]] = self.put(f[e[1]], path[1:], x, s); return Tup(f)
        if k == 'a':
            al = dict(v.alts); t = list(al[e[1]]); t[e[2]] = self.put(t[e[2]], path[1:], x, s); al[e[1]] = tuple(t); return Enm(v.d, al)
        if k == 'b':
            lv = dict(v.lv); cur = lv[e[1]][1] if e[1] in lv else None
            lv[e[1]] = (e[2], self.put(cur, path[1:], x, s)); return Buf(v.name, v.len, lv, v.zero)
        if k == 'disc': return Enm(x, v.alts)
        if k == 'attr':
            if isinstance(v, TIter): return TIter(v.p, x if e[1] == 'lo' else v.lo, x if e[1] == 'hi' else v.hi, v.mut)
            if isinstance(v, VIter): return VIter(v.v, v.pos, x, v.ref)
            if isinstance(v, Node): return Node(v.p, x if e[1] == 'lo' else v.lo, x if e[1] == 'hi' else v.hi)
    def leaf_bits(self, key, path):
        """unsigned width of an integer leaf, by type where known"""
        if path and path[-1][0] == 'b': return 8*path[-1][2]
        if key[0] == 'L':
            f = self.m.frames.get(key[1])
            if f is not None:
                t = f['locals'][key[2]]
                try:
                    for e in path:
                        T = self.m.T(t)
                        if e[0] == 'f': t = T['variants'][0]['f'][e[1]][1] if T['k'] == 'adt' else T['e'][e[1]]
                        elif e[0] == 'a': t = T['variants'][e[1]]['f'][e[2]][1]
                    return self.m.bits(t)[0]
                except (Unsupported, KeyError, IndexError): pass
        return 128
    def own_item(self, st, x):
        """item with references to values of their own spelled out"""
        if isinstance(x, Tup): return Tup(self.own_item(st, y) for y in x.f)
        if isinstance(x, Enm): return Enm(x.d, {i: tuple(self.own_item(st, y) for y in t) for i, t in x.alts.items()})
        if isinstance(x, Ptr) and x.obj[0] == 'O' and not x.path and x.meta is None and x.obj in st.mem and x.obj not in self.known: return RefV(self.own_item(st, st.mem[x.obj]))
        return x
    def item_key(self, st, x):
        """(tree, key, template) of an item that is a function of one key met in this iteration"""
        x = self.own_item(st, x); cs = {}
        for t in vleaves(x): consts_of(t, cs)
        found = [(T, nk) for T, lo, nk, hi in self.m.ctx.events.values() if nk is not None and nk.decl().name() in cs]
        if len(found) != 1: raise Unsupported('vector of computed items')
        T, nk = found[0]
        tm = None if not isinstance(x, Val) and isinstance(x, z3.ExprRef) and x.eq(nk) else Tmpl(nk, x)
        hav = {r['var'].decl().name() for r in self.mods.values()}
        if set(cs) & hav - {nk.decl().name()}: raise Unsupported('vector of computed items')
        return T, nk, tm
    def add_mod(self, d, st):
        key, path, kind, a, b = d
        if (key, path) in self.mods: return False
        r = dict(key=key, path=path, kind=kind)
        if kind == 'int': r['var'] = rng(fresh('h'), self.leaf_bits(key, path)); r['e'] = a
        elif kind == 'bool': r['var'] = fresh('hb', 'bool'); r['e'] = a
        elif kind == 'disc':
            r['var'] = fresh('hd'); r['e'] = a.d; r['alts'] = dict(a.alts)
            for v in b.alts:
                if v not in r['alts']: r['alts'][v] = b.alts[v]; r.setdefault('new', []).append(v); r['from'] = st
            vs = sorted(r['alts']); r['vs'] = vs
            RANGE_AX[r['var'].decl().name()] = z3.Or([r['var'] == v for v in vs])
        elif kind == 'cursor':
            r['var'] = fresh('c'); r['role'] = path[-1][1]; r['e'] = getattr(a, r['role'])
            if isinstance(a, VIter): r['T'] = a.v.keys[0]; r['bound'] = a.v.keys[1]
            else: r['p'] = a.p; r['T'] = None
            r['cls'] = type(a).__name__
        elif kind == 'vec':
            if a.items or a.keys or b.keys or not b.items: raise Unsupported('vector modified in loop')
            if len(b.items) != 1: raise Unsupported('vector grows by more than one')
            T, _, r['tm'] = self.item_key(st, b.items[0])
            r['var'] = fresh('g'); r['T'] = T; r['role'] = 'vec'; r['e'] = -1
        elif kind == 'tree':
            r['base'] = a.t; r['T'] = a.t
            sh = self.shape(b.t, a.t)
            r['role'] = sh; r['e'] = -1 if sh == 'trunc' else trees.INF
            r['var'] = fresh('g')
            if sh == 'trunc':
                r['tr'] = trees.TTrunc(a.t, r['var'])
                RANGE_AX[r['tr'].sz.decl().name()] = z3.And(r['tr'].sz >= 0, zi(r['tr'].sz) <= zi(a.t.size()))
            elif sh == 'zf': r['tr'] = trees.TZeroFrom(a.t, r['var'])
            else:
                r['pv'] = rng(fresh('hv'), 64); r['tr'] = trees.TZeroFrom(a.t, r['var'], r['pv'])
        if kind in ('cursor', 'vec', 'tree'): RANGE_AX[r['var'].decl().name()] = z3.And(r['var'] >= -1, r['var'] <= trees.INF)
        self.mods[(key, path)] = r
        return True
    def shape(self, t, base):
        if t.key() == base.key(): return None
        if isinstance(t, trees.TIte):
            a, b = self.shape(t.a, base), self.shape(t.b, base)
            return 'zp' if 'zp' in (a, b) else a or b
        if isinstance(t, trees.TRm): return 'trunc'
        if isinstance(t, trees.TIns): return 'zf' if isc(t.v) and t.v == 0 else 'zp'
        raise Unsupported('tree modified in loop')
    def havoc(self):
        s = self.entry.fork()
        for (key, path), r in list(self.mods.items()):
            if r['kind'] == 'disc':
                v = self.get(s.mem[key], path[:-1])
                al = dict(v.alts); self.sb = r.get('from')
                for a in r.get('new', []):
                    if a not in al: al[a] = tuple(self.fresh_like(x, key, path[:-1] + (('a', a, i),), r, s) for i, x in enumerate(r['alts'][a]))
                s.mem[key] = self.put(s.mem[key], path[:-1], Enm(r['var'], al)); continue
            v = r['var']
            if r['kind'] == 'vec': v = Vec((), (r['T'], r['var']), r['tm'])
            if r['kind'] == 'tree': v = TreeV(r['tr'])
            s.mem[key] = self.put(s.mem[key], path, v, s)
        # cursor trees
        for r in self.mods.values():
            if r['kind'] == 'cursor' and r['T'] is None:
                r['T'] = self.entry_tree(r['p'])
        return s
    def entry_tree(self, p):
        v = self.m.read(self.entry.fork(), p.obj, p.path)
        return v.t
    def fresh_like(self, x, key, path, r, s):
        """payload of a variant that was inactive at entry"""
        if isinstance(x, Val):
            if x is UNIT or isinstance(x, Opq): return x
            if isinstance(x, Tup): return Tup(self.fresh_like(y, key, path + (('f', i),), r, s) for i, y in enumerate(x.f))
            if isinstance(x, Ptr) and x.path and x.path[-1][0] == 'tval' and isc(x.off):
                return Ptr(x.obj, x.path[:-1] + (('tval', self.fresh_like(x.path[-1][1], key, path + (('tk',),), r, s)),), x.off, x.meta)
            if isinstance(x, Ptr) and self.own_ref(self.sb, x) and not isinstance(self.sb.mem[x.obj], Val):
                return Ptr(self.m.new_obj(s, self.fresh_like(self.sb.mem[x.obj], key, path + (('oref',),), r, s)))
            raise Unsupported(f'variant payload {x!r} in loop'[:120])
        k = (key, path)
        if k not in self.mods:
            v = rng(fresh('h'), self.leaf_bits(key, path)) if not isb(x) else fresh('hb', 'bool')
            self.mods[k] = dict(key=key, path=path, kind='int' if not isb(x) else 'bool', var=v, e=v, payload=r)
        return self.mods[k]['var']
    # -- values of the havocked variables in a back state
    def back_vals(self, s, obls):
        sub = []
        for (key, path), r in self.mods.items():
            if r['kind'] == 'vec':
                v = self.get(s.mem[key], path)
                if not v.items: nv = v.keys[1]
                else:
                    if len(v.items) != 1 or v.keys is None: raise Unsupported('vector grows by more than one')
                    T, nv, tm = self.item_key(s, v.items[0]); g = v.keys[1]
                    if T.key() != r['T'].key() or not veq(tm, r['tm']): raise Unsupported('vector of different items')
                    obls.append(and_(T.has(nv), lt(g, nv), le(T.pk(nv), g)))
            elif r['kind'] == 'tree':
                nv = self.tree_ghost(self.get(s.mem[key], path).t, r, obls, True)
                if 'pv' in r:
                    nv, pv = nv; sub.append((r['pv'], zi(pv)))
            else:
                nv = self.get(s.mem[key], path, s)
                if nv is None: nv = r['var']     # variant inactive
            if isinstance(nv, Val): raise Unsupported('value in loop')
            sub.append((r['var'], zb(nv) if isb(nv) else zi(nv)))
        return sub
    def tree_ghost(self, t, r, obls, cond):
        base, h = r['base'], r['tr']
        if t.key() == h.key(): return (r['var'], r['pv']) if 'pv' in r else r['var']
        if isinstance(t, trees.TIte):
            a = self.tree_ghost(t.a, r, obls, and_(cond, t.c)); b = self.tree_ghost(t.b, r, obls, and_(cond, not_(t.c)))
            return (ite(t.c, a[0], b[0]), ite(t.c, a[1], b[1])) if 'pv' in r else ite(t.c, a, b)
        if isinstance(t, trees.TRm) and r['role'] == 'trunc':
            g = self.tree_ghost(t.t, r, obls, cond)
            obls.append(implies(cond, and_(base.has(t.k), lt(g, t.k), le(base.pk(t.k), g))))
            return t.k
        if isinstance(t, trees.TIns) and r['role'] == 'zf' and isc(t.v) and t.v == 0:
            g = self.tree_ghost(t.t, r, obls, cond)
            obls.append(implies(cond, and_(base.has(t.k), lt(t.k, g), le(base.pk(g), t.k))))
            return t.k
        if isinstance(t, trees.TIns) and r['role'] == 'zp':
            g, pv = self.tree_ghost(t.t, r, obls, cond)
            obls.append(implies(cond, and_(base.has(t.k), lt(t.k, g), le(base.pk(g), t.k), eq(pv, 0))))
            return t.k, t.v
        raise Unsupported('tree update in loop')
    # -- candidates
    def candidates(self, H):
        m = self.m; C = []
        curs = [r for r in self.mods.values() if r['kind'] in ('cursor', 'vec', 'tree')]
        asc = [r for r in curs if r['role'] in ('lo', 'kpos', 'vec', 'trunc')]
        dsc = [r for r in curs if r['role'] in ('hi', 'zf', 'zp')]
        ints = [r for r in self.mods.values() if r['kind'] == 'int']
        discs = [r for r in self.mods.values() if r['kind'] == 'disc']
        bools = [r for r in self.mods.values() if r['kind'] == 'bool']
        hist = [t for t in m.ctx.trees.values() if t.maxv > U64]
        terms_ = self.live_terms()
        for r in curs:
            if 'bound' in r and not isc(r['bound']) and not any(same(r['bound'], t) for t in terms_): terms_.append(r['bound'])
        def c_(e): 
            if not isc(e): C.append(e)
        for i, a in enumerate(curs):
            for b in curs[i+1:]:
                if (a in asc) == (b in asc) and a['T'].key() == b['T'].key(): c_(eq(a['var'], b['var']))
        for r in asc:
            T, c = r['T'], r['var']
            c_(or_(eq(c, r['e']), T.has(c))); c_(ge(c, r['e']))
            for t in terms_: c_(or_(eq(c, r['e']), le(c, t))); c_(or_(eq(c, r['e']), lt(c, t)))
            if r['kind'] == 'cursor' and r['role'] == 'kpos': pass
        for r in dsc:
            T, d = r['T'], r['var']
            c_(or_(eq(d, r['e']), T.has(d))); c_(le(d, r['e']))
            for t in terms_: c_(or_(eq(d, r['e']), le(t, d))); c_(or_(eq(d, r['e']), lt(t, d)))
        for a in asc:
            for d in dsc:
                if a['kind'] == 'cursor' and d['kind'] == 'cursor' and a['key'] == d['key']: c_(lt(a['var'], d['var']))
        for r in ints:
            x, e = r['var'], r['e']
            if 'payload' in r:
                pv = r['path'][len(r['payload']['path']) - 1][1]
                for q in curs:
                    c_(or_(ne(r['payload']['var'], pv), eq(x, q['T'].val(q['var']))))
                    c_(or_(ne(r['payload']['var'], pv), eq(x, q['var'])))
                continue
            c_(eq(x, e)); c_(le(x, e)); c_(ge(x, e))
            for q in asc:
                T, c = q['T'], q['var']
                s0 = T.S(q['e'])
                c_(eq(x, sub(e, sub(T.S(c), s0)))); c_(eq(x, add(e, sub(T.S(c), s0))))
                if q['role'] == 'vec' or q['kind'] == 'cursor':
                    for h in hist:
                        if same(q['e'], -1):
                            fo = trees.fold(T, h)
                            if self.width(r) > 64: c_(eq(x, fo.I(e, c)))
                            else:
                                for iv in ints:
                                    if self.width(iv) > 64:
                                        for w in ints:
                                            if w is not r and self.width(w) <= 64 and 'payload' not in w: c_(eq(x, add(e, fo.A(w['e'], iv['e'], c))))
            for q in dsc:
                T, d = q['T'], q['var']
                tail = sub(sub(T.S(trees.INF), T.S(sub(d, 1))), q.get('pv', 0)); t0 = sub(T.S(trees.INF), T.S(sub(q['e'], 1)))
                c_(eq(x, sub(e, sub(tail, t0)))); c_(eq(x, add(e, sub(tail, t0))))
        for q in dsc:
            if 'pv' not in q: continue
            c_(eq(q['pv'], 0)); c_(le(q['pv'], ite(q['T'].has(q['var']), q['T'].val(q['var']), 0)))
            for r in ints:
                if 'payload' not in r: c_(or_(eq(q['pv'], 0), eq(r['var'], 0)))
        for r in discs:
            for v in r['vs']:
                for q in asc: c_(iff(eq(r['var'], v), eq(q['var'], q['e'])))
                for q in dsc: c_(iff(eq(r['var'], v), eq(q['var'], q['e'])))
        for r in bools: c_(iff(r['var'], r['e']))
        out = []
        for e in C:
            if not any(e.eq(o) for o in out): out.append(e)
        return out
    def width(self, r): return self.leaf_bits(r['key'], r['path'])
    def live_terms(self):
        """integer terms the loop body may compare cursors with: live locals and one level of references"""
        out = []
        def add_(v, d):
            if isinstance(v, Ptr) and d < 6:
                try: add_(self.m.read(self.entry.fork(), v.obj, v.path), d + 2)
                except (Unsupported, Exception): pass
                return
            if isinstance(v, Tup) and len(v.f) < 4 and d < 6:
                for x in v.f: add_(x, d + 1)
                return
            if isinstance(v, Val) or isb(v) or isinstance(v, (str, type(None))): return
            if not any(same(v, o) for o in out): out.append(v)
        mk = {k for k, _ in self.mods}
        for l in self.info.live[self.header]:
            k = ('L', self.fr.id, l)
            if k in self.entry.mem and (k not in mk or isinstance(self.entry.mem[k], Tup)): add_(self.entry.mem[k], 0)
        return [t for t in out if not isc(t)][:12]
    def progress(self, sols, cands):
        """the loop ends: a position in a map, or several together, strictly advance on every way round (they are bounded)"""
        cur = [r for r in self.mods.values() if r['kind'] in ('cursor', 'vec', 'tree')]
        up = lambda r: r['role'] in ('lo', 'kpos', 'vec', 'trunc')
        for ms in [[r] for r in cur] + [cur]:
            for b, sub, ob in sols:
                nv = lambda r: next(v for x, v in sub if x.eq(r['var']))
                d = tsum(globals()['sub'](nv(r), r['var']) if up(r) else globals()['sub'](r['var'], nv(r)) for r in ms)
                if self.m.ctx.check(b.pc, list(cands) + [zb(not_(lt(0, d)))]) != z3.unsat: break
            else:
                if ms: self.m.ctx.obligations_loop += len(sols); return
        raise Unsupported('loop not shown to end')
    # -- main
    def run(self):
        m = self.m; t0 = time.time()
        H = None
        first = True
        for rnd in range(8):
            H = self.havoc() if not first else self.entry.fork()
            base_lossy = H.lossy
            outs, exits, backs = m.region(self.fr, [(self.header, H.fork())], self.header, self.blocks)
            grew = False
            for b in backs:
                for k in list(b.mem):
                    if k[0] == 'L' and k[1] == self.fr.id and k[2] not in self.info.live[self.header]: del b.mem[k]
                ds = []; self.sa, self.sb = H, b
                if b.log != H.log: raise Unsupported('cross-program call in a loop')
                for k in list(b.mem):
                    if k in H.mem:
                        if k[0] in SKIP: continue
                        self.diff(k, (), H.mem[k], b.mem[k], ds)
                    elif k[0] in ('D', 'LAM', 'PP', 'key', 'owner', 'IX') or k[0] == 'cell' or k[0] == 'alias':
                        # object first touched inside the loop: materialise at entry and retry
                        if k[0] in ('alias',): raise Unsupported('account resolved in a loop')
                        if k[0] == 'cell':
                            if b.mem[k] != 0: raise Unsupported('borrow in a loop')
                            continue
                        if k not in self.entry.mem: m.materialise(self.entry, k)
                        grew = True
                for d in ds:
                    if (d[0], d[1]) not in self.mods: grew |= self.add_mod(d, b)
                    elif self.mods[(d[0], d[1])]['kind'] != d[2]: raise Unsupported('loop value changes kind')
                    elif d[2] == 'disc':
                        r = self.mods[(d[0], d[1])]
                        for v in d[4].alts:
                            if v not in r['alts']: raise Unsupported('loop variant')
            first = False
            if not grew: break
        else: raise Unsupported('loop does not stabilise')
        if not backs: return outs, exits
        cands = self.candidates(H)
        ent = [(r['var'], zb(r['e']) if isb(r['e']) else zi(r['e'])) for r in self.mods.values() if 'payload' not in r]
        ent += [(r['pv'], zi(0)) for r in self.mods.values() if 'pv' in r]
        # initiation
        s = m.ctx.solver(self.entry.pc, (), 4000)
        live = []
        for c in cands:
            e = z3.simplify(z3.substitute(c, *ent))
            if z3.is_true(e): live.append(c); continue
            s.push(); s.add(z3.Not(z3.substitute(c, *ent)))
            r = s.check(); s.pop(); m.ctx.nq += 1
            if r == z3.unsat: live.append(c)
        cands = live
        sols = []
        structural = []
        for b in backs:
            ob = []
            sub = self.back_vals(b, ob)
            sols.append((b, sub, ob))
        while True:
            drop = []
            for b, sub, ob in sols:
                s = m.ctx.solver(b.pc, cands, 4000)
                for c in cands:
                    if c in drop: continue
                    s.push(); s.add(z3.Not(z3.substitute(c, *sub)))
                    r = s.check(); s.pop(); m.ctx.nq += 1
                    if r != z3.unsat: drop.append(c)
            if not drop: break
            ids = {d.get_id() for d in drop}
            cands = [c for c in cands if c.get_id() not in ids]
        for b, sub, ob in sols:
            for o in ob:
                if o is True: continue
                if m.ctx.check(b.pc, list(cands) + [not_(o)]) != z3.unsat: raise Unsupported('loop invariant: order of keys')
        if os.environ.get('VERIF_LOOP'):
            print(f'loop {self.fr.name} bb{self.header}: {len(self.mods)} modified, {len(cands)} invariants, {time.time()-t0:.1f}s', file=sys.stderr)
            for r in self.mods.values(): print('   mod', r['kind'], r.get('role'), r['var'], '=', str(r['e'])[:60], r['key'], r['path'], file=sys.stderr)
            for c in cands: print('   inv', str(c).replace('\n', ' ')[:200], file=sys.stderr)
        if m.keep_fail: self.progress(sols, cands)
        m.loops_done.append(dict(fn=self.fr.name, invariants=[str(c).replace('\n', ' ') for c in cands], candidates=len(live)))
        m.ctx.obligations_loop += len(cands) * (1 + len(backs)) + sum(len(ob) for _, _, ob in sols)
        H = self.havoc()
        for c in cands: H.assume(c)
        outs, exits, backs = m.region(self.fr, [(self.header, H)], self.header, self.blocks)
        lost = []
        for b in backs:
            for c, why in b.lossy[len(self.entry.lossy):]:
                if m.ctx.check(b.pc, [c], 4000) != z3.unsat: lost.append((fresh('lost', 'bool'), why))
        if lost:
            for _, s, _ in outs: s.lossy = s.lossy + tuple(lost)
            for _, s in exits: s.lossy = s.lossy + tuple(lost)
        return outs, exits
