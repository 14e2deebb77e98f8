"""Symbolic executor over exported monomorphic MIR.  Paths are merged at join points; loops are cut by inferred
invariants (loops.py); calls go to bodies, to models of library primitives (models.py), or to verified contracts."""
import json, os, sys, time, re
import z3
from terms import *
from values import *
import trees
import loops, models

class Panic(Exception): pass

class Ctx:
    """solver context of one verification run"""
    def __init__(self):
        self.events = {}      # name -> (tree, lo, nk or None, hi)
        self.assume = []      # global assumptions (z3)
        self.trees = {}
        self.nq = 0; self.tq = 0.0
        self.obl = []; self.obligations_loop = 0
        self.feas_cache = {}
        self.fresh_ax = {}
    def base_tree(self, name, cap, maxv=U64):
        if name not in self.trees: self.trees[name] = trees.TBase(name, cap, maxv)
        return self.trees[name]
    # -- axioms
    def event_back(self, st, T, lo, hi):
        """the greatest key below hi (above lo)"""
        nk = rng(fresh('pk'), 64)
        name = f'ev!{len(self.events)}'
        self.events[name] = (T, nk, None, hi)
        s = st.fork()
        s.assume(z3.Bool(name), name)
        s.assume(and_(lt(lo, nk), lt(nk, hi), T.has(nk)))
        return s, nk
    def event_axioms(self, name):
        T, lo, nk, hi = self.events[name]
        ev = z3.Bool(name); x = z3.Int('x')
        up = zi(nk if nk is not None else hi); lo = zi(lo)
        out = []
        # base-level patterns: expand has/S on the (possibly derived) tree
        for B in T.bases():
            out.append(z3.ForAll([x], z3.Implies(z3.And(ev, lo < x, x < up), z3.Not(zb(T.has(x)))), patterns=[B.h(x)]))
            out.append(z3.ForAll([x], z3.Implies(z3.And(ev, lo <= x, x < up), zi(T.S(x)) == zi(T.S(lo))), patterns=[B.s(x)]))
        if nk is not None:
            out.append(z3.Implies(ev, z3.And(up > lo, up < zi(hi), zb(T.has(nk)), zi(T.S(nk)) == zi(T.S(lo)) + zi(T.val(nk)))))
        for f in trees.folds_on(T):
            for q in f.gap(lo, up): out.append(guard(ev, q))
            if nk is not None:
                for q in f.step(lo, nk): out.append(guard(ev, q))
                for w0, i0 in f.ground: out.append(z3.Implies(ev, z3.And(*f.ground_step(w0, i0, lo, nk))))
        return out
    def axioms(self, used_ev, exprs):
        ax = list(ARITH_AXIOMS)
        for t in self.trees.values(): ax += t.ax
        for f in trees.all_folds(): ax += f.ax
        for e in used_ev: ax += self.event_axioms(e)
        ax += self.assume
        ax += self.fresh_ax.values()
        ax += RANGE_AX.values()
        return ax
    def solver(self, pc, extra=(), timeout=None):
        s = z3.SolverFor('ALL') if False else z3.Solver()
        if timeout: s.set('timeout', timeout)
        evs = set()
        for p in pc: evs |= p.ev
        for a in self.axioms(evs, None): s.add(a)
        for p in pc: s.add(p.e)
        for e in extra: s.add(zb(e))
        return s
    def check(self, pc, extra=(), timeout=10000):
        t = time.time()
        r = self.solver(pc, extra, timeout).check()
        self.nq += 1; self.tq += time.time() - t
        return r
    def feasible(self, pc, quick=True):
        """False only if the path is certainly infeasible"""
        if pc and z3.is_false(pc[-1].e): return False
        # ground check without axioms first
        s = self.inc(pc)
        return s != z3.unsat
    def inc(self, pc):
        t = time.time()
        if not hasattr(self, '_s'):
            self._s = z3.Solver(); self._s.set('timeout', 3000); self._stk = []; self._nax = 0; self._ax = set()
        # sync stack
        n = 0
        while n < len(self._stk) and n < len(pc) and self._stk[n] is pc[n]: n += 1
        if len(self._stk) > n:
            self._s.pop(len(self._stk) - n); del self._stk[n:]
        if not self._stk:
            self._base_count()
        for p in pc[n:]:
            self._s.push(); self._s.add(p.e)
            for e in p.ev:
                for a in self.event_axioms(e): self._s.add(a)
            self._stk.append(p)
        self._sync_axioms()
        r = self._s.check()
        self.nq += 1; self.tq += time.time() - t
        return r
    def _base_count(self): pass
    def _axkey(self): return (len(self.trees), len(trees.all_folds()), len(self.assume), len(RANGE_AX), len(self.fresh_ax))
    def _sync_axioms(self):
        k = self._axkey()
        if self._nax != k:
            # axioms live at the top of the current stack; rebuild when the base set grew
            stk = list(self._stk)
            self._s.reset(); self._s.set('timeout', 3000)
            for a in self.axioms((), None): self._s.add(a)
            for p in stk:
                self._s.push(); self._s.add(p.e)
                for e in p.ev:
                    for a in self.event_axioms(e): self._s.add(a)
            self._nax = k
    def event(self, st, T, lo, hi, some):
        """fork helper: returns (state with the event assumed, next key or None)"""
        name = f'ev!{len(self.events)}'
        nk = fresh('nk') if some else None
        self.events[name] = (T, lo, nk, hi)
        s = st.fork()
        s.assume(z3.Bool(name), name)
        if some:
            rng(nk, 64)
            s.assume(and_(lt(lo, nk), lt(nk, hi), T.has(nk)))
        return s, nk

def guard(ev, q):
    n = q.num_vars()
    vs = [z3.Const(q.var_name(i), q.var_sort(i)) for i in range(n)]
    body = z3.substitute_vars(q.body(), *reversed(vs))
    pats = [z3.MultiPattern(*[z3.substitute_vars(c, *reversed(vs)) for c in q.pattern(i).children()]) if q.pattern(i).num_args() > 1 else z3.substitute_vars(q.pattern(i).arg(0), *reversed(vs)) for i in range(q.num_patterns())]
    return z3.ForAll(vs, z3.Implies(ev, body), patterns=pats)

class Fr:
    __slots__ = ('f', 'id', 'inst', 'name')
    def __init__(self, f, id, inst): self.f, self.id, self.inst, self.name = f, id, inst, f['name']

class Machine:
    def __init__(self, dump, ctx, keep_fail=False):
        self.d = dump; self.types = dump['types']; self.fns = dump['fns']; self.allocs = dump['allocs']
        self.ctx = ctx; self.keep_fail = keep_fail
        self.nfr = 0; self.nobj = 0
        self.summaries = {}
        self.used_summaries = set()
        self.used_models = set()
        self.used_fns = set()
        self.sym_iter = False
        self.depth = 0
        self.hooks = {}
        self.frames = {}; self.loops_done = []; self.site = ''
        self.loopinfo = {}
        self.trace = os.environ.get('VERIF_TRACE')
    # ---------------------------------------------------------------- types
    def T(self, t): return self.types[str(t)]
    def size(self, t):
        l = self.T(t)['lay']
        return l['size'] if l else None
    def new_obj(self, st, v, tag='O'):
        self.nobj += 1
        k = (tag, self.nobj); st.mem[k] = v
        return k
    def field_index(self, t, name):
        for i, (n, ft) in enumerate(self.T(t)['variants'][0]['f']):
            if n == name: return i, ft
        raise Unsupported(f'no field {name} in {self.T(t)["name"]}')
    def mkstruct(self, t, vals, default=None):
        fs = self.T(t)['variants'][0]['f']
        return Tup(vals[n] if n in vals else (default(n, ft) if default else UNINIT) for n, ft in fs)
    def is_tree(self, t):
        T = self.T(t)
        return T['k'] == 'adt' and T['path'].endswith('RedBlackTree')
    def is_u8arr(self, t):
        T = self.T(t)
        return T['k'] == 'array' and self.T(T['e'])['k'] == 'int' and self.T(T['e'])['bits'] == 8
    def tree_cap(self, t):
        for a in self.T(t)['args']:
            if isinstance(a, dict): return a['c']
        raise Unsupported('tree capacity')
    def zero(self, t):
        """all-zero-bytes value of a plain type"""
        T = self.T(t); k = T['k']
        if k == 'int': return 0
        if k == 'bool': return False
        if k == 'array':
            if self.is_u8arr(t): return BArr(T['n'], [(1, 0)]*T['n'] if T['n'] < 32 else [(T['n'], 0)])
            return Tup([self.zero(T['e'])]*T['n'])
        if k == 'adt' and T['adt'] == 'struct': return Tup(self.zero(ft) for _, ft in T['variants'][0]['f'])
        if k == 'tuple': return Tup(self.zero(x) for x in T['e'])
        raise Unsupported('zero of ' + T['name'])
    # ---------------------------------------------------------------- buffers
    def buf_read(self, st, obj, off, t):
        """typed read of account data at byte offset off (materialises leaves)"""
        b = st.mem[obj]; T = self.T(t); k = T['k']
        if self.is_tree(t): return self.leaf(st, obj, off, self.size(t), 'tree', t)
        if k == 'int': return self.leaf(st, obj, off, T['bits']//8, 'int', t)
        if k == 'bool': return self.leaf(st, obj, off, 1, 'int', t)
        if k == 'array' and self.is_u8arr(t):
            n = T['n']
            return self.bytes_at(st, obj, off, n)
        if k == 'adt' and T['adt'] == 'struct':
            offs = T['lay']['offsets']
            return Tup(self.buf_read(st, obj, off + offs[i], ft) for i, (_, ft) in enumerate(T['variants'][0]['f']))
        if k == 'tuple' and not T['e']: return UNIT
        raise Unsupported('buffer view of ' + T['name'])
    def bytes_at(self, st, obj, off, n):
        b = st.mem[obj]; ch = []; o = off
        while o < off + n:
            if o in b.lv and o + b.lv[o][0] <= off + n:
                s, v = b.lv[o]
                if isinstance(v, TreeV): raise Unsupported('bytes of a tree')
                ch.append((s, v)); o += s
                continue
            cov = [(a, s, v) for a, (s, v) in b.lv.items() if a < o < a + s or (a == o and a + s > off + n)]
            if cov:
                a, s, v = cov[0]
                if isinstance(v, TreeV): raise Unsupported('bytes of a tree')
                e = min(a + s, off + n)
                ch.append((e - o, mod(div(v, 1 << (8*(o-a))), 1 << (8*(e-o))))); o = e
                continue
            nxt = min([a for a in b.lv if o < a < off + n] + [off + n])
            step = nxt - o if n >= 8 and o == off and nxt == off + n else 1
            v = 0 if b.zero else leaf_var(b.name, o, step)
            self.set_leaf(st, obj, o, step, v); b = st.mem[obj]
            ch.append((step, v)); o += step
        return BArr(n, ch)
    def set_leaf(self, st, obj, off, size, v):
        b = st.mem[obj]
        lv = dict(b.lv); lv[off] = (size, v)
        st.mem[obj] = Buf(b.name, b.len, lv, b.zero)
    def leaf(self, st, obj, off, size, kind, t):
        b = st.mem[obj]
        if off in b.lv and b.lv[off][0] == size:
            v = b.lv[off][1]
            if (kind == 'tree') != isinstance(v, TreeV): raise Unsupported('mixed views of account data')
            if kind == 'tree' and v.t.cap != self.tree_cap(t): raise Unsupported('mixed tree types')
            return v
        for a, (s, v) in b.lv.items():
            if a < off + size and off < a + s:
                if kind == 'int' and not isinstance(v, TreeV): return bint(self.bytes_at(st, obj, off, size))
                raise Unsupported(f'overlapping views of account data at {off}')
        if kind == 'tree':
            cap = self.tree_cap(t)
            if b.zero: tr = trees.TEmpty(cap, False)
            else:
                vt = self.T(t)['args'][1]
                tr = self.ctx.base_tree(f'{b.name}@{off}', cap, 2**self.T(vt)['bits'] - 1)
                values_tree_leaf(b.name, off, size, tr)
            v = TreeV(tr)
        else: v = 0 if b.zero else leaf_var(b.name, off, size)
        self.set_leaf(st, obj, off, size, v)
        return v
    def buf_write(self, st, obj, off, t, v):
        T = self.T(t); k = T['k']
        if self.is_tree(t):
            self.drop_overlap(st, obj, off, self.size(t)); self.set_leaf(st, obj, off, self.size(t), v); return
        if k in ('int', 'bool'):
            n = T['bits']//8 if k == 'int' else 1
            self.drop_overlap(st, obj, off, n); self.set_leaf(st, obj, off, n, v); return
        if k == 'array' and self.is_u8arr(t):
            self.drop_overlap(st, obj, off, T['n'])
            o = off
            for l, x in v.ch: self.set_leaf(st, obj, o, l, x); o += l
            return
        if k == 'adt' and T['adt'] == 'struct':
            offs = T['lay']['offsets']
            for i, (_, ft) in enumerate(T['variants'][0]['f']): self.buf_write(st, obj, off + offs[i], ft, v.f[i])
            return
        raise Unsupported('buffer write of ' + T['name'])
    def drop_overlap(self, st, obj, off, n):
        b = st.mem[obj]
        for a, (s, v) in list(b.lv.items()):
            if a < off + n and off < a + s and not (a >= off and a + s <= off + n):
                if isinstance(v, TreeV): raise Unsupported('partial overwrite of a tree')
                # split the leaf into bytes outside the range
                lv = dict(b.lv); del lv[a]
                for i in range(s):
                    if not (off <= a + i < off + n): lv[a+i] = (1, mod(div(v, 1 << (8*i)), 256))
                b = st.mem[obj] = Buf(b.name, b.len, lv, b.zero)
            elif a >= off and a + s <= off + n and (a != off or s != n):
                lv = dict(b.lv); del lv[a]
                b = st.mem[obj] = Buf(b.name, b.len, lv, b.zero)
    def view(self, path):
        """resolve a view path in a Buf: -> (byte offset, type, rest)"""
        _, off, t = path[0]; i = 1
        while i < len(path):
            e = path[i]; T = self.T(t)
            if self.is_tree(t): break
            if e[0] == 'f' and T['k'] == 'adt':
                off += T['lay']['offsets'][e[1]]; t = T['variants'][0]['f'][e[1]][1]
            elif e[0] == 'i' and T['k'] == 'array':
                if not isc(e[1]): raise Unsupported('symbolic index into account data')
                off += e[1]*self.size(T['e']); t = T['e']
            else: raise Unsupported(f'view projection {e}')
            i += 1
        return off, t, path[i:]
    # ---------------------------------------------------------------- memory
    def read(self, st, obj, path):
        if obj not in st.mem: v = self.materialise(st, obj)
        else: v = st.mem[obj]
        if isinstance(v, Buf) and path and path[0][0] == 'v':
            off, t, rest = self.view(path)
            if rest and self.is_tree(t): return self.tree_proj(st, Ptr(obj, path[:len(path)-len(rest)]), self.buf_read(st, obj, off, t), t, rest)
            return self.buf_read(st, obj, off, t)
        if isinstance(v, Buf) and path and path[0][0] == 'i' and isc(path[0][1]) and len(path) == 1:
            return bint(self.bytes_at(st, obj, path[0][1], 1))
        return self.proj(st, v, path, obj)
    def tree_proj(self, st, p, v, t, rest):
        e = rest[0]
        if e[0] == 'tval': return v.t.val(e[1])
        if e[0] == 'f':
            n = self.T(t)['variants'][0]['f'][e[1]][0]
            if n == 'root': return Node(p, -1, trees.INF)
        raise Unsupported(f'tree internals {rest}')
    def proj(self, st, v, path, obj=None):
        for j, e in enumerate(path):
            if isinstance(v, TreeV):
                if e[0] == 'tval': return v.t.val(e[1])
                if e[0] == 'f': raise Unsupported('tree internals')
            if isinstance(v, Lazy): v = self.force(st, v)
            k = e[0]
            if k == 'f':
                if isinstance(v, tuple): v = v[1].alts[v[2]][e[1]] if v[2] in v[1].alts else UNINIT
                elif isinstance(v, Tup): v = v.f[e[1]]
                elif isinstance(v, Union): v = v.v
                elif isinstance(v, BArr) and e[1] == 0: pass
                elif v is UNINIT: return UNINIT
                elif isinstance(v, models.BoxV) and e[1] == 0: pass
                elif isinstance(v, Opq): return Opq(v.tag + '.f')
                elif isinstance(v, Enm) and len(v.alts) == 1: v = list(v.alts.values())[0][e[1]]
                else: raise Unsupported(f'field {e} of {v!r}'[:200])
            elif k == 'd':
                if isinstance(v, Opq): return Opq(v.tag)
                v = ('variant', v, e[1])
            elif k == 'i':
                if isinstance(v, BArr): v = self.byte(v, e[1])
                elif isinstance(v, Tup):
                    if isc(e[1]): v = v.f[e[1]]
                    elif 0 < len(v.f) <= 64:      # the bounds check comes before: the last item stands for the rest
                        r = v.f[-1]
                        try:
                            for i in range(len(v.f) - 2, -1, -1): r = vmerge(eq(e[1], i), v.f[i], r)
                        except CantMerge: raise Unsupported('symbolic index')
                        v = r
                    else: raise Unsupported('symbolic index')
                elif isinstance(v, Vec) and v.keys is None and isc(e[1]): v = v.items[e[1]]
                else: raise Unsupported(f'index of {v!r}'[:200])
            else: raise Unsupported(f'projection {e}')
        if isinstance(v, tuple): return v[1]
        return v
    def byte(self, b, i):
        if not isc(i): raise Unsupported('symbolic byte index')
        o = 0
        for l, v in b.ch:
            if o <= i < o + l: return v if l == 1 else mod(div(v, 1 << (8*(i-o))), 256)
            o += l
        raise Panic('index out of bounds')
    def set_byte(self, b, i, x):
        ch = []; o = 0
        for l, v in b.ch:
            if o <= i < o + l and l > 1:
                for j in range(l): ch.append((1, x if o + j == i else mod(div(v, 1 << (8*j)), 256)))
            elif o == i: ch.append((1, x))
            else: ch.append((l, v))
            o += l
        return BArr(b.n, ch)
    def write(self, st, obj, path, val):
        if not path:
            cur = st.mem.get(obj)
            if isinstance(cur, Buf): raise Unsupported('whole buffer write')
            st.mem[obj] = val; return
        if obj not in st.mem: self.materialise(st, obj)
        v = st.mem[obj]
        if isinstance(v, Buf):
            if path[0][0] != 'v': raise Unsupported('buffer write')
            off, t, rest = self.view(path)
            if rest:
                if self.is_tree(t) and rest[0][0] == 'tval':
                    tv = self.buf_read(st, obj, off, t)
                    self.buf_write(st, obj, off, t, TreeV(trees.TIns(tv.t, rest[0][1], val)))
                    return
                raise Unsupported(f'tree internals write {rest}')
            self.buf_write(st, obj, off, t, val); return
        st.mem[obj] = self.upd(st, v, path, val)
    def upd(self, st, v, path, val):
        if not path: return val
        e = path[0]; k = e[0]
        if isinstance(v, Lazy): v = self.force(st, v)
        if k == 'f':
            if isinstance(v, Tup):
                f = list(v.f); f[e[1]] = self.upd(st, f[e[1]], path[1:], val); return Tup(f)
            if isinstance(v, Union): return Union(self.upd(st, v.v, path[1:], val))
            if isinstance(v, BArr) and e[1] == 0: return self.upd(st, v, path[1:], val)
            if v is UNINIT or isinstance(v, Opq):
                # field-wise initialisation
                f = [UNINIT]*(e[1]+1); f[e[1]] = self.upd(st, UNINIT, path[1:], val); return Tup(f)
            raise Unsupported(f'write field of {v!r}'[:160])
        if k == 'd':
            if isinstance(v, Enm):
                e2 = path[1]
                if e[1] not in v.alts: raise Unsupported('write to inactive variant')
                f = list(v.alts[e[1]]); f[e2[1]] = self.upd(st, f[e2[1]], path[2:], val)
                a = dict(v.alts); a[e[1]] = tuple(f); return Enm(v.d, a)
            raise Unsupported('write variant')
        if k == 'i':
            if isinstance(v, BArr):
                if not isc(e[1]): raise Unsupported('symbolic byte index')
                return self.set_byte(v, e[1], val)
            if isinstance(v, Tup) and isc(e[1]):
                f = list(v.f); f[e[1]] = self.upd(st, f[e[1]], path[1:], val); return Tup(f)
        if k == 'tval' and isinstance(v, TreeV): return TreeV(trees.TIns(v.t, e[1], val))
        raise Unsupported(f'write {e} in {v!r}'[:160])
    def materialise(self, st, obj):
        raise Unsupported(f'dangling object {obj}')
    def force(self, st, v):
        raise Unsupported(f'lazy {v}')
    # ---------------------------------------------------------------- places and operands
    def loc(self, st, fr, place):
        """-> (obj, path, off, meta)"""
        obj, path, off, meta = ('L', fr.id, place[0]), (), 0, None
        for e in place[1]:
            if e == '*':
                v = self.read(st, obj, path)
                if isinstance(v, Tup) and len(v.f) == 1: v = v.f[0]
                if isinstance(v, models.BoxV): v = v.p
                if isinstance(v, Opq) and v is not UNINIT: v = Ptr(('opq',)); st.mem[('opq',)] = Opq('opq')
                if not isinstance(v, Ptr): raise Unsupported(f'deref of {v!r}'[:200])
                obj, path, off, meta = v.obj, v.path, v.off, v.meta
            elif e[0] == 'f':
                path = path + (('f', e[1]),)
            elif e[0] == 'd': path = path + (('d', e[1]),)
            elif e[0] == 'i':
                i = self.read(st, ('L', fr.id, e[1]), ())
                path = path + (('i', add(off, i)),); off, meta = 0, None
            elif e[0] == 'c':
                i = e[1]
                if e[3]:
                    n = meta if meta is not None else None
                    if n is None: raise Unsupported('constant index from end')
                    i = sub(n, i)
                path = path + (('i', add(off, i)),); off, meta = 0, None
            else: raise Unsupported(f'place {e}')
        return obj, path, off, meta
    def rd(self, st, fr, place):
        if not place[1]:
            v = st.mem.get(('L', fr.id, place[0]), UNINIT)
            return v
        o, p, off, meta = self.loc(st, fr, place)
        return self.read(st, o, p)
    def wr(self, st, fr, place, val):
        if not place[1]:
            st.mem[('L', fr.id, place[0])] = val; return
        o, p, off, meta = self.loc(st, fr, place)
        self.write(st, o, p, val)
    def op(self, st, fr, o):
        if o[0] in ('cp', 'mv'): return self.rd(st, fr, o[1])
        if o[0] == 'k': return self.konst(st, o[1])
        if o[0] == 'rt': return False
        raise Unsupported(str(o))
    def konst(self, st, k):
        T = self.T(k['t'])
        if 'zst' in k: return self.zst(k['t'])
        if 'unk' in k: raise Unsupported('constant ' + k['unk'][:80])
        return self.decode(st, k['bytes'], dict((o, a) for o, a in k['prov']), 0, k['t'])
    def zst(self, t):
        T = self.T(t)
        if T['k'] == 'fndef': return Fn(T['inst'])
        if T['k'] == 'adt' and T['adt'] == 'struct': return Tup(self.zst(ft) for _, ft in T['variants'][0]['f'])
        if T['k'] == 'array': return BArr(0, ()) if self.is_u8arr(t) else Tup(())
        return UNIT
    def decode(self, st, hx, prov, off, t):
        T = self.T(t); k = T['k']
        def num(o, n):
            h = hx[2*o:2*(o+n)]
            if '?' in h: raise Unsupported('uninitialised constant')
            return int.from_bytes(bytes.fromhex(h), 'little')
        if k == 'int':
            v = num(off, T['bits']//8)
            return v - (1 << T['bits']) if T['signed'] and v >> (T['bits']-1) else v
        if k == 'bool': return bool(num(off, 1))
        if k == 'char': return num(off, 4)
        if k in ('ref', 'ptr'):
            E = self.T(T['e'])
            if off not in prov:
                v = num(off, 8)
                return Ptr(('dangling', v), ())
            a = prov[off]; add_ = num(off, 8)
            A = self.allocs[str(a)]
            if E['k'] in ('str', 'slice'):
                n = num(off+8, 8)
                if E['k'] == 'str' or (self.T(E['e'])['k'] == 'int' and self.T(E['e'])['bits'] == 8):
                    ob = ('A', a, 'u8')
                    if ob not in st.mem:
                        b = bytes.fromhex(A['bytes']); st.mem[ob] = BArr(len(b), [(len(b), int.from_bytes(b, 'little'))] if b else ())
                    return Ptr(ob, (), add_, n)
                ob = ('A', a, E['e'], n)
                if ob not in st.mem:
                    es = self.size(E['e'])
                    st.mem[ob] = Tup(self.decode(st, A['bytes'], dict((o, x) for o, x in A['prov']), add_ + i*es, E['e']) for i in range(n))
                return Ptr(ob, (), 0, n)
            if A['k'] == 'fn': return Fn(A['inst'])
            if A['k'] == 'static' or 'bytes' not in A: return Ptr(('S', A.get('name', '?')), ())
            ob = ('A', a, T['e'], add_)
            if ob not in st.mem:
                try: st.mem[ob] = self.decode(st, A['bytes'], dict((o, x) for o, x in A['prov']), add_, T['e'])
                except Unsupported as ex: st.mem[ob] = Opq('const')
            return Ptr(ob, ())
        if k == 'fnptr':
            A = self.allocs[str(prov[off])]
            return Fn(A['inst'])
        if k == 'array':
            n = T['n']
            if self.is_u8arr(t):
                v = num(off, n) if n else 0
                return BArr(n, [(n, v)] if n >= 32 or n == 0 else [(1, (v >> (8*i)) & 255) for i in range(n)])
            es = self.size(T['e'])
            return Tup(self.decode(st, hx, prov, off + i*es, T['e']) for i in range(n))
        if k == 'tuple':
            offs = T['lay'].get('offsets', [0]*len(T['e']))
            return Tup(self.decode(st, hx, prov, off + offs[i], x) for i, x in enumerate(T['e']))
        if k == 'adt' and T['adt'] == 'struct':
            offs = T['lay'].get('offsets') or [0]*len(T['variants'][0]['f'])
            return Tup(self.decode(st, hx, prov, off + offs[i], ft) for i, (_, ft) in enumerate(T['variants'][0]['f']))
        if k == 'adt' and T['adt'] == 'union':
            return Union(UNINIT)
        if k == 'adt' and T['adt'] == 'enum':
            if len(T['variants']) == 1: i = 0; offs = T['lay'].get('offsets', [])
            else:
                L = T['lay']
                if 'tag' not in L: raise Unsupported('enum layout ' + T['name'])
                m = re.search(r'length: I(\d+)', L['tag']); n = int(m.group(1))//8 if m else None
                to = L.get('offsets', [0])[L['tag_field']] if L.get('offsets') else 0
                if n is None: raise Unsupported('enum tag ' + L['tag'][:80])
                enc = L['tag_enc']
                tv = num(off + to, n)
                if enc.startswith('Direct'):
                    i = [j for j, v in enumerate(T['variants']) if int(v['d']) % (1 << (8*n)) == tv][0]
                else:
                    m = re.search(r'untagged_variant: VariantIdx\((\d+)\).*niche_variants: .*?\((\d+)\).*?\((\d+)\).*niche_start: (\d+)', enc)
                    if not m: raise Unsupported('niche enum constant ' + enc[:120])
                    u, a, b, s = map(int, m.groups())
                    r = (tv - s) % (1 << (8*n))
                    i = a + r if r <= b - a else u
                offs = L['voffsets'][i]
            return Enm(i, {i: tuple(self.decode(st, hx, prov, off + offs[j], ft) for j, (_, ft) in enumerate(T['variants'][i]['f']))})
        raise Unsupported('constant of type ' + T['name'])
    # ---------------------------------------------------------------- rvalues
    def bits(self, t):
        T = self.T(t)
        if T['k'] == 'int': return T['bits'], T['signed']
        if T['k'] == 'bool': return 1, False
        if T['k'] == 'char': return 32, False
        raise Unsupported('arithmetic on ' + T['name'])
    def inrange(self, v, bits, signed):
        lo, hi = (-(1 << (bits-1)), (1 << (bits-1)) - 1) if signed else (0, (1 << bits) - 1)
        if isc(v): return lo <= v <= hi
        return and_(le(lo, v), le(v, hi))
    def wrap(self, st, v, bits, signed, why):
        ok = self.inrange(v, bits, signed)
        if ok is True: return v
        if isc(v):
            v %= 1 << bits
            return v - (1 << bits) if signed and v >> (bits-1) else v
        st.lossy = st.lossy + ((not_(ok), why),)
        if signed: return sub(mod(add(v, 1 << (bits-1)), 1 << bits), 1 << (bits-1))
        return ite(ok, v, mod(v, 1 << bits))
    def binop(self, st, b, x, y, t, where=''):
        T = self.T(t)
        if b in ('Eq', 'Ne', 'Lt', 'Le', 'Gt', 'Ge'):
            if isinstance(x, Node) or isinstance(y, Node): return models.node_cmp(self, st, b, x, y)
            if isinstance(x, (Val,)) or isinstance(y, Val):
                if b in ('Eq', 'Ne') and isinstance(x, Ptr) and isinstance(y, Ptr):
                    r = veq(x, y); return r if b == 'Eq' else not r
                raise Unsupported(f'compare {x!r} {y!r}'[:160])
            return {'Eq': eq, 'Ne': ne, 'Lt': lt, 'Le': le, 'Gt': gt, 'Ge': ge}[b](x, y)
        if b == 'Offset': raise Unsupported('pointer offset')
        if b == 'Cmp': return Enm(ite(lt(x, y), 0, ite(eq(x, y), 1, 2)), {0: (), 1: (), 2: ()})
        if T['k'] == 'bool':
            return {'BitAnd': and_, 'BitOr': or_, 'BitXor': ne}[b](x, y)
        bits, sg = self.bits(t)
        if b in ('Add', 'Sub', 'Mul'):
            return self.wrap(st, {'Add': add, 'Sub': sub, 'Mul': mul}[b](x, y), bits, sg, where)
        if b in ('AddUnchecked', 'SubUnchecked', 'MulUnchecked'):
            return {'A': add, 'S': sub, 'M': mul}[b[0]](x, y)
        if b in ('Div', 'Rem'):
            if sg and not (isc(x) and isc(y)): raise Unsupported('signed division')
            return div(x, y) if b == 'Div' else mod(x, y)
        if isc(x) and isc(y):
            if b == 'BitAnd': return x & y
            if b == 'BitOr': return x | y
            if b == 'BitXor': return x ^ y
            if b in ('Shl', 'ShlUnchecked'): return (x << y) & ((1 << bits) - 1)
            if b in ('Shr', 'ShrUnchecked'): return x >> y
        if b in ('Shr', 'ShrUnchecked') and isc(y): return div(x, 1 << y)
        if b in ('Shl', 'ShlUnchecked') and isc(y): return self.wrap(st, mul(x, 1 << y), bits, sg, where)
        if b == 'BitAnd' and isc(y) and (y & (y+1)) == 0: return mod(x, y+1)
        raise Unsupported(f'binop {b} on symbols')
    def rvalue(self, st, fr, r, line):
        k = r[0]
        if k == 'use': return self.op(st, fr, r[1])
        if k in ('ref', 'addr'):
            o, p, off, meta = self.loc(st, fr, r[1])
            return Ptr(o, p, off, meta)
        if k == 'bin':
            return self.binop(st, r[1], self.op(st, fr, r[2]), self.op(st, fr, r[3]), r[4], f"{fr.name}:{line}")
        if k == 'cbin':
            x, y = self.op(st, fr, r[2]), self.op(st, fr, r[3])
            v = {'Add': add, 'Sub': sub, 'Mul': mul}[r[1].replace('Checked', '')[:3]](x, y)
            bits, sg = self.bits(r[4])
            return Tup((v, not_(self.inrange(v, bits, sg))))
        if k == 'agg':
            ops = [self.op(st, fr, o) for o in r[3]]
            a = r[1]
            if a[0] == 'adt':
                T = self.T(r[2])
                if T['adt'] == 'enum': return Enm(a[1], {a[1]: tuple(ops)})
                if T['adt'] == 'union': return Union(ops[0])
                return Tup(ops)
            if a[0] == 'array':
                if self.is_u8arr(r[2]): return BArr(len(ops), [(1, o) for o in ops])
                return Tup(ops)
            if a[0] == 'rawptr':
                p, m = ops
                if isinstance(p, Ptr): return Ptr(p.obj, p.path, p.off, None if m is UNIT or isinstance(m, Tup) else m)
            if a[0] in ('tuple', 'closure'): return Tup(ops)
            raise Unsupported(f'aggregate {a}')
        if k == 'cast': return self.cast(st, fr, r, line)
        if k == 'discr':
            v = self.rd(st, fr, r[1])
            return self.discr(v, r[2])
        if k == 'len':
            o, p, off, meta = self.loc(st, fr, r[1])
            if meta is not None: return meta
            v = self.read(st, o, p)
            return len(v.f) if isinstance(v, Tup) else v.n
        if k == 'repeat':
            v = self.op(st, fr, r[1]); n = r[2]
            if self.is_u8arr(r[3]): return BArr(n, [(1, v)]*n if n < 32 or not isc(v) else [(n, int.from_bytes(bytes([v])*n, 'little'))])
            return Tup([v]*n)
        if k == 'un':
            v = self.op(st, fr, r[2])
            if r[1] == 'Not':
                if isb(v): return not_(v)
                bits, sg = self.bits(r[3])
                return sub(-1 if sg else (1 << bits) - 1, v)
            if r[1] == 'Neg': return neg(v)
            if r[1] == 'PtrMetadata':
                if isinstance(v, Ptr): return v.meta if v.meta is not None else UNIT
            raise Unsupported(f'unop {r[1]}')
        raise Unsupported(f'rvalue {k} {r[1] if len(r) > 1 else ""}'[:120])
    def discr(self, v, t):
        if v is UNINIT and self.size(t) == 0: return 0
        if not isinstance(v, Enm): raise Unsupported(f'discriminant of {v!r}'[:160])
        vs = self.T(t)['variants']
        ds = [int(x['d']) for x in vs]
        if ds == list(range(len(ds))): return v.d
        if isc(v.d): return ds[v.d]
        r = ds[-1]
        for i in range(len(ds)-1): r = ite(eq(v.d, i), ds[i], r)
        return r
    def cast(self, st, fr, r, line):
        kind, o, to, frm = r[1], r[2], r[3], r[4]
        v = self.op(st, fr, o)
        TT, TF = self.T(to), self.T(frm)
        if kind == 'IntToInt':
            if isb(v): v = ite(v, 1, 0)
            if isinstance(v, Enm): v = self.discr(v, frm)
            if isinstance(v, Node): raise Unsupported('cast of node id')
            bits, sg = self.bits(to)
            if TF['k'] == 'int':
                fb, fs = self.bits(frm)
                if not fs and fb < bits or (fs == sg and fb <= bits) or (not fs and not sg and fb <= bits): return v
            return self.wrap(st, v, bits, sg, f'{fr.name}:{line} cast')
        if 'Unsize' in kind:
            if isinstance(v, Ptr) and TF['k'] in ('ref', 'ptr'):
                E = self.T(TF['e'])
                if E['k'] == 'array': return Ptr(v.obj, v.path, v.off, E['n'])
            if isinstance(v, models.BoxV): return v
            return v
        if kind in ('PtrToPtr', 'FnPtrToPtr') or kind.startswith('PointerCoercion') :
            return v
        if kind == 'BoxDerefTransmute' and isinstance(v, models.BoxV): return v.p
        if kind == 'Transmute' or kind == 'Subtype': return self.transmute(st, v, frm, to)
        if kind == 'PointerExposeAddress' or kind == 'PointerExposeProvenance': return 16
        raise Unsupported(f'cast {kind}')
    def transmute(self, st, v, frm, to):
        TT, TF = self.T(to), self.T(frm)
        if frm == to: return v
        if isinstance(v, BArr):
            if TT['k'] == 'int': return bint(v)
            if self.is_u8arr(to): return v
            if TT['k'] == 'adt' and TT['adt'] == 'struct' and len(TT['variants'][0]['f']) == 1: return Tup((self.transmute(st, v, frm, TT['variants'][0]['f'][0][1]),))
        if TF['k'] == 'int' and self.is_u8arr(to): return BArr(TT['n'], [(TT['n'], v)])
        if TF['k'] == 'int' and TT['k'] == 'int' and not isinstance(v, Val):
            return self.wrap(st, v, TT['bits'], TT['signed'], 'transmute')
        if isinstance(v, Tup) and len(v.f) == 1 and TF['k'] == 'adt': return self.transmute(st, v.f[0], TF['variants'][0]['f'][0][1], to)
        if TT['k'] == 'adt' and TT['adt'] == 'struct' and len(TT['variants'][0]['f']) == 1 and not isinstance(v, Tup):
            return Tup((self.transmute(st, v, frm, TT['variants'][0]['f'][0][1]),))
        if isinstance(v, Union) and v.v is not UNINIT: return v.v
        if isinstance(v, Ptr): return v
        if TF['k'] == TT['k'] and TF['k'] == 'adt' and TF.get('path') == TT.get('path'): return v
        raise Unsupported(f"transmute {TF['name']} -> {TT['name']}"[:160])
    # ---------------------------------------------------------------- control flow
    def cfg(self, inst):
        if inst in self.loopinfo: return self.loopinfo[inst]
        self.loopinfo[inst] = loops.analyse(self.fns[inst])
        return self.loopinfo[inst]
    def call(self, st, inst, args, argtys=None, where=''):
        """-> list of (kind, state, value); kind in ret/panic"""
        if isinstance(inst, Fn): inst = inst.inst
        f = self.fns.get(inst)
        if f is None: raise Unsupported(f'unknown callee {inst}')
        name = f['name']
        h = self.hooks.get(name)
        if h is not None:
            r = h(self, st, args)
            if r is not None: return r
        if inst in self.summaries:
            r = self.summaries[inst](self, st, args)
            if r is not None:
                self.used_summaries.add(inst)
                return [('ret', s, v) for s, v in r]
        mdl = models.find(name, f)
        if mdl is not None:
            self.used_models.add(mdl.__name__ + ': ' + name[:110])
            try: r = mdl(self, st, args, f, argtys)
            except Panic as e: return [('panic', st, str(e))]
            return [x if len(x) == 3 else ('ret',) + tuple(x) for x in r]
        if f['body'] is None: raise Unsupported('no model for ' + name[:160])
        if argtys and len(args) == 2 == f['nargs'] and argtys[1] != f['locals'][2] and f.get('spread') is None and isinstance(args[1], Tup) and len(args[1].f) == 1 and '{closure' in name:
            args = [args[0], args[1].f[0]]      # rust-call: the arguments arrive as one tuple
        return self.exec_fn(st, inst, args)
    def call_body(self, st, inst, args): return self.exec_fn(st, inst, args)
    def exec_fn(self, st, inst, args, init=None):
        f = self.fns[inst]
        self.used_fns.add(inst)
        if self.depth > 60: raise Unsupported('recursion')
        self.nfr += 1
        fr = Fr(f, self.nfr, inst); self.frames[self.nfr] = f
        n = f['nargs']
        if len(args) != n:
            # closure called through the Fn traits: the arguments arrive as one tuple
            if len(args) == 2 and isinstance(args[1], Tup) and 1 + len(args[1].f) == n: args = [args[0]] + list(args[1].f)
            elif f.get('spread') is not None: pass
            else: raise Unsupported(f'call arity of {f["name"]}')
        for i, a in enumerate(args): st.mem[('L', fr.id, i+1)] = a
        for i, a in (init or {}).items(): st.mem[('L', fr.id, i)] = a
        if self.trace: print('  '*self.depth + '>', f['name'][:110], file=sys.stderr)
        self.depth += 1
        try:
            outs, exits, backs = self.region(fr, [(0, st)], None, None)
        finally: self.depth -= 1
        res = []
        for kind, s, v in outs:
            for k in [k for k in s.mem if k[0] == 'L' and k[1] == fr.id]: del s.mem[k]
            res.append((kind, s, v))
        res = self.merge_outs(res)
        if self.trace: print('  '*self.depth + '<', f['name'][:90], [(k, getattr(v, 'd', None)) for k, s, v in res], file=sys.stderr)
        return res
    def merge_outs(self, outs):
        res = []
        for kind, s, v in outs:
            s.mem['ret'] = v
            done = False
            if kind == 'panic' and not self.keep_fail: continue
            for i, (k2, s2, _) in enumerate(res):
                if k2 != kind: continue
                m = self.merge(s2, s, None)
                if m is not None: res[i] = (kind, m, None); done = True; break
            if not done: res.append((kind, s, None))
        out = []
        for k, s, _ in res:
            v = s.mem.pop('ret'); out.append((k, s, v))
        return out
    def shape_ok(self, a, b):
        """discriminants of results must agree for merging"""
        if isinstance(a, Enm) and isinstance(b, Enm):
            if isc(a.d) and isc(b.d) and a.d != b.d: return False
        return True
    def merge(self, a, b, fr, bb=None):
        """merge two states or None"""
        if a.log != b.log and not log_eq(a.log, b.log): return None
        if 'ret' in a.mem and not self.shape_ok(a.mem['ret'], b.mem['ret']): return None
        live = None
        if fr is not None:
            info = self.cfg(fr.inst); live = info.live[bb]
            for s in (a, b):
                for k in [k for k in s.mem if k[0] == 'L' and k[1] == fr.id and k[2] not in live]: del s.mem[k]
            for l in live:
                k = ('L', fr.id, l); x, y = a.mem.get(k), b.mem.get(k)
                if isinstance(x, Enm) and isinstance(y, Enm) and x is not y:
                    nm = self.T(fr.f['locals'][l])['name']
                    if not nm.startswith('std::option::Option') and not self.shape_ok(x, y): return None
        for k in a.mem:
            if k[0] in ('cell', 'alias') and (k not in b.mem or not veq(a.mem[k], b.mem[k])): return None
        for k in b.mem:
            if k[0] in ('cell', 'alias') and k not in a.mem: return None
        # path condition
        n = 0
        while n < len(a.pc) and n < len(b.pc) and a.pc[n] is b.pc[n]: n += 1
        sa, sb = a.pc[n:], b.pc[n:]
        ca, cb = and_(*[p.e for p in sa]), and_(*[p.e for p in sb])
        ca, cb = unz(zb(ca)), unz(zb(cb))
        m = State(); m.log = a.log
        evs = frozenset().union(*[p.ev for p in sa + sb]) if sa or sb else frozenset()
        # factor: common conjuncts
        m.pc = a.pc[:n]
        o = or_(ca, cb)
        if o is not True: m.pc = m.pc + (PC(zb(o), evs),)
        elif evs: m.pc = m.pc + (PC(z3.BoolVal(True), evs),)
        # selector: prefer a simple one
        c = ca
        if isc(c): c = not_(cb) if not isc(cb) else c
        mem = {}
        try:
            for k in a.mem.keys() | b.mem.keys():
                if k in a.mem and k in b.mem:
                    x, y = a.mem[k], b.mem[k]
                    mem[k] = x if x is y else vmerge(c, x, y)
                else:
                    mem[k] = a.mem[k] if k in a.mem else b.mem[k]
        except CantMerge:
            return None
        m.mem = mem
        if a.lossy is b.lossy: m.lossy = a.lossy
        else:
            n = 0
            while n < len(a.lossy) and n < len(b.lossy) and a.lossy[n] is b.lossy[n]: n += 1
            m.lossy = a.lossy[:n] + tuple((and_(ca, q), why) for q, why in a.lossy[n:]) + tuple((and_(cb, q), why) for q, why in b.lossy[n:])
        return m
    def region(self, fr, start, header, blocks):
        """run from start states until leaving `blocks`, reaching `header` again, returning or panicking."""
        info = self.cfg(fr.inst)
        work = {}
        for bb, s in start: work.setdefault(bb, []).append(s)
        outs, exits, backs = [], [], []
        first = header is not None
        while work:
            bb = min(work, key=lambda b: info.rpo[b]) if not (first and header in work) else header
            states = work.pop(bb)
            if len(states) > 1: states = self.merge_list(states, fr, bb)
            for st in states:
                if bb in info.loops and not (bb == header and first):
                    r = loops.run_loop(self, fr, st, bb)
                    outs += r[0]
                    nxt = r[1]
                else:
                    nxt = self.block(fr, st, bb, outs)
                for nb, s in nxt:
                    if nb == header: backs.append(s)
                    elif blocks is not None and nb not in blocks: exits.append((nb, s))
                    else: work.setdefault(nb, []).append(s)
            first = False
        return outs, exits, backs
    def merge_list(self, states, fr, bb):
        res = []
        for s in states:
            for i, r in enumerate(res):
                m = self.merge(r, s, fr, bb)
                if m is not None: res[i] = m; break
            else: res.append(s)
        return res
    def block(self, fr, st, bb, outs):
        f = fr.f
        stmts, term = f['body'][bb]
        try:
            for s in stmts:
                k = s[0]
                if k == '=': self.wr(st, fr, s[1], self.rvalue(st, fr, s[2], s[3]))
                elif k == 'dead': st.mem.pop(('L', fr.id, s[1]), None)
                elif k == 'live': st.mem.pop(('L', fr.id, s[1]), None)
                elif k == 'assume':
                    st.assume(self.op(st, fr, s[1]))
                elif k == 'setd':
                    v = self.rd(st, fr, s[1])
                    self.wr(st, fr, s[1], Enm(s[2], {s[2]: v.alts.get(s[2], ()) if isinstance(v, Enm) else ()}))
                else: raise Unsupported(f'statement {k}')
            return self.term(fr, st, term, outs)
        except Panic as e:
            outs.append(('panic', st, str(e))); return []
        except Unsupported as e:
            if not e.args or ' [in ' not in str(e): raise Unsupported(f'{e} [in {fr.name} bb{bb}]') from e
            raise
    def branch(self, st, conds):
        """conds: list of (cond, tag) assumed exhaustive; returns feasible (state, tag)"""
        live = [(c, t) for c, t in conds if c is not False]
        if len(live) == 1 and live[0][0] is True: return [(st, live[0][1])]
        out = []
        for c, t in live:
            s = st.fork()
            if c is not True:
                s.assume(c)
                if not self.ctx.feasible(s.pc): continue
            out.append((s, t))
        return out
    def term(self, fr, st, t, outs):
        k = t[0]
        if k == 'goto': return [(t[1], st)]
        if k == 'ret':
            outs.append(('ret', st, st.mem.get(('L', fr.id, 0), UNIT))); return []
        if k == 'switch':
            v = self.op(st, fr, t[1])
            T = self.T(t[4])
            if isinstance(v, Val): raise Unsupported(f'switch on {v!r}'[:120])
            conds, other = [], []
            for val, bb in t[2]:
                val = int(val)
                if isb(v): c = v if val else not_(v)
                else:
                    if T['k'] == 'int' and T['signed'] and val >> (T['bits']-1): val -= 1 << T['bits']
                    c = eq(v, val)
                conds.append((c, bb)); other.append(not_(c))
            oc = and_(*other)
            ob = t[3]
            if fr.f['body'][ob][1][0] == 'unreachable' and not fr.f['body'][ob][0]: pass
            else: conds.append((oc, ob))
            return [(bb, s) for s, bb in self.branch(st, conds)]
        if k == 'call':
            callee = t[1]
            if callee is None: raise Unsupported('unresolved callee')
            if isinstance(callee, list): callee = self.op(st, fr, callee[1]).inst
            args = [self.op(st, fr, a) for a in t[2]]
            self.ret_t = t[6]
            r = self.call(st, callee, args, t[7], f'{fr.name}:{t[5]}')
            nxt = []
            for kind, s, v in r:
                if kind == 'panic':
                    if self.keep_fail: outs.append(('panic', s, v))
                    continue
                if t[4] is None: 
                    outs.append(('panic', s, 'diverging call')); continue
                self.wr(s, fr, t[3], v)
                nxt.append((t[4], s))
            return nxt
        if k == 'assert':
            v = self.op(st, fr, t[1]); exp = t[2]
            c = v if exp else not_(v)
            nxt = []
            for s, tag in self.branch(st, [(c, True), (not_(c), False)]):
                if tag: nxt.append((t[4], s))
                elif self.keep_fail: outs.append(('panic', s, f'{t[3]} at {fr.name}:{t[5]}'))
            return nxt
        if k == 'drop':
            if t[1][1] and any(e == '*' for e in t[1][1]): return [(t[2], st)]
            v = self.rd(st, fr, t[1])
            models.drop(self, st, v)
            return [(t[2], st)]
        if k == 'unreachable': return []
        raise Unsupported(f'terminator {k}')

class Union(Val):
    __slots__ = ('v',)
    def __init__(self, v): self.v = v
    def same(self, o): return veq(self.v, o.v)
    def __repr__(self): return f'Union({self.v})'

def log_eq(a, b):
    return len(a) == len(b) and all(veq(x, y) if not isinstance(x, tuple) else x[0] == y[0] and len(x) == len(y) and all(_le(p, q) for p, q in zip(x, y)) for x, y in zip(a, b))
def _le(p, q):
    try: return veq(p, q)
    except Exception: return False

def values_tree_leaf(name, off, size, tr):
    import values
    values._tree_leaf[(name, off, size)] = tr

def load_dump(path):
    return json.load(open(path))
