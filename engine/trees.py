"""Ordered maps (the sokoban red-black trees are modelled as finite ordered maps u64 -> value of bounded size).

Queries: has(k), val(k) (meaningful when has(k)), S(x) = sum of values of keys <= x, pk(x) = greatest key < x or -1,
size.  Base trees are uninterpreted; derived trees are chains of operations expanded on query."""
import z3
from terms import *

INF = 2**64          # above every key

class Tree:
    __slots__ = ()
    base = None
    def idx(self, x):
        """value at the greatest key strictly below x, or 0"""
        p = self.pk(x)
        return ite(lt(p, 0), 0, self.val(p))

class TBase(Tree):
    """Unconstrained map.  name must be unique."""
    __slots__ = ('name', 'h', 'v', 's', 'p', 'cap', 'sz', 'ax', 'zero_init', 'maxv')
    def __init__(self, name, cap, maxv=U64):
        self.name, self.cap, self.maxv = name, cap, maxv
        self.h = z3.Function('has_'+name, Z, z3.BoolSort()); self.v = z3.Function('val_'+name, Z, Z)
        self.s = z3.Function('S_'+name, Z, Z); self.p = z3.Function('pk_'+name, Z, Z)
        self.sz = z3.Int('size_'+name)
        h, v, s, p = self.h, self.v, self.s, self.p
        x, y = z3.Ints('x y')
        self.ax = [
            self.sz >= 0, self.sz <= cap,
            z3.ForAll([x], z3.Implies(x > U64, s(x) == s(U64)), patterns=[s(x)]),
            z3.ForAll([x], z3.Implies(h(x), z3.And(x >= 0, x <= U64, self.sz >= 1)), patterns=[h(x)]),
            z3.ForAll([x], z3.And(v(x) >= 0, v(x) <= maxv), patterns=[v(x)]),
            z3.ForAll([x], z3.And(s(x) >= 0, z3.Implies(x < 0, s(x) == 0)), patterns=[s(x)]),
            z3.ForAll([x, y], z3.Implies(x <= y, s(x) <= s(y)), patterns=[z3.MultiPattern(s(x), s(y))]),
            z3.ForAll([x], s(x) == s(x-1) + z3.If(h(x), v(x), 0), patterns=[v(x)]),
            z3.ForAll([x], z3.Implies(z3.Not(h(x)), s(x) == s(x-1)), patterns=[z3.MultiPattern(h(x), s(x))]),
            z3.ForAll([x], z3.And(p(x) >= -1, p(x) < x + z3.If(x >= 0, 0, 1-x), z3.Implies(p(x) >= 0, h(p(x)))), patterns=[p(x)]),
            z3.ForAll([x, y], z3.Implies(z3.And(h(y), y < x), p(x) >= y), patterns=[z3.MultiPattern(p(x), h(y))]),
            z3.ForAll([x, y], z3.Implies(x <= y, p(x) <= p(y)), patterns=[z3.MultiPattern(p(x), p(y))]),
        ]
    def axioms(self): return self.ax
    def has(self, k): return unz(self.h(zi(k)))
    def val(self, k): return self.v(zi(k))
    def S(self, x):
        if isc(x) and x < 0: return 0
        return self.s(zi(x))
    def pk(self, x): return self.p(zi(x))
    def size(self): return self.sz
    def key(self): return ('base', self.name)
    def bases(self): return {self}
    def __repr__(self): return self.name

class TEmpty(Tree):
    """Empty map.  init=False: zeroed memory whose allocator was not initialised."""
    __slots__ = ('cap', 'init')
    def __init__(self, cap, init=True): self.cap, self.init = cap, init
    def has(self, k): return False
    def val(self, k): return 0
    def S(self, x): return 0
    def pk(self, x): return -1
    def size(self): return 0
    def key(self): return ('empty', self.cap, self.init)
    def bases(self): return set()
    def __repr__(self): return 'empty'

class TConc(Tree):
    """Concrete map (native runs)."""
    __slots__ = ('d', 'cap', 'keys')
    def __init__(self, d, cap): self.d, self.cap = dict(d), cap; self.keys = sorted(self.d)
    def has(self, k): return k in self.d
    def val(self, k): return self.d.get(k, 0)
    def S(self, x): return sum(v for k, v in self.d.items() if k <= x)
    def pk(self, x):
        r = -1
        for k in self.keys:
            if k < x: r = k
            else: break
        return r
    def size(self): return len(self.d)
    def key(self): return ('conc', tuple(sorted(self.d.items())), self.cap)
    def bases(self): return set()
    def __repr__(self): return f'conc{self.d}'

class TIns(Tree):
    """k set to v (inserted or overwritten; the insertion is known to succeed)."""
    __slots__ = ('t', 'k', 'v', 'cap')
    def __init__(self, t, k, v): self.t, self.k, self.v, self.cap = t, k, v, t.cap
    def has(self, x): return or_(eq(x, self.k), self.t.has(x))
    def val(self, x): return ite(eq(x, self.k), self.v, self.t.val(x))
    def S(self, x):
        old = ite(self.t.has(self.k), self.t.val(self.k), 0)
        return add(self.t.S(x), ite(le(self.k, x), sub(self.v, old), 0))
    def pk(self, x):
        p = self.t.pk(x)
        return ite(and_(lt(self.k, x), le(p, self.k)), self.k, p)
    def size(self): return add(self.t.size(), ite(self.t.has(self.k), 0, 1))
    def key(self): return ('ins', self.t.key(), tk(self.k), tk(self.v))
    def bases(self): return self.t.bases()
    def __repr__(self): return f'ins({self.t},{self.k},{self.v})'

class TRm(Tree):
    __slots__ = ('t', 'k', 'cap')
    def __init__(self, t, k): self.t, self.k, self.cap = t, k, t.cap
    def has(self, x): return and_(ne(x, self.k), self.t.has(x))
    def val(self, x): return self.t.val(x)
    def S(self, x):
        return sub(self.t.S(x), ite(and_(le(self.k, x), self.t.has(self.k)), self.t.val(self.k), 0))
    def pk(self, x):
        p = self.t.pk(x)
        return ite(eq(p, self.k), self.t.pk(self.k), p)
    def size(self): return sub(self.t.size(), ite(self.t.has(self.k), 1, 0))
    def key(self): return ('rm', self.t.key(), tk(self.k))
    def bases(self): return self.t.bases()
    def __repr__(self): return f'rm({self.t},{self.k})'

class TTrunc(Tree):
    """all keys <= c removed"""
    __slots__ = ('t', 'c', 'cap', 'sz')
    def __init__(self, t, c, sz=None): self.t, self.c, self.cap = t, c, t.cap; self.sz = sz if sz is not None else fresh('tsz')
    def has(self, x): return and_(lt(self.c, x), self.t.has(x))
    def val(self, x): return self.t.val(x)
    def S(self, x): return ite(le(x, self.c), 0, sub(self.t.S(x), self.t.S(self.c)))
    def pk(self, x):
        p = self.t.pk(x)
        return ite(lt(self.c, p), p, -1)
    def size(self): return self.sz
    def axioms(self): return [and_(le(0, self.sz), le(self.sz, self.t.size()))]
    def key(self): return ('trunc', self.t.key(), tk(self.c))
    def bases(self): return self.t.bases()
    def __repr__(self): return f'trunc({self.t},{self.c})'

class TZeroFrom(Tree):
    """values of all keys > d set to zero, and the value at d (a key, unless v is 0) set to v"""
    __slots__ = ('t', 'd', 'cap', 'v')
    def __init__(self, t, d, v=0): self.t, self.d, self.cap, self.v = t, d, t.cap, v
    def has(self, x): return self.t.has(x)
    def val(self, x): return ite(lt(x, self.d), self.t.val(x), ite(eq(x, self.d), self.v, 0))
    def S(self, x): return ite(lt(x, self.d), self.t.S(x), add(self.t.S(sub(self.d, 1)), self.v))
    def pk(self, x): return self.t.pk(x)
    def size(self): return self.t.size()
    def key(self): return ('zf', self.t.key(), tk(self.d), tk(self.v))
    def bases(self): return self.t.bases()
    def __repr__(self): return f'zerofrom({self.t},{self.d})'

class TIte(Tree):
    __slots__ = ('c', 'a', 'b', 'cap')
    def __init__(self, c, a, b): self.c, self.a, self.b, self.cap = c, a, b, a.cap
    def has(self, x): return ite(self.c, self.a.has(x), self.b.has(x))
    def val(self, x): return ite(self.c, self.a.val(x), self.b.val(x))
    def S(self, x): return ite(self.c, self.a.S(x), self.b.S(x))
    def pk(self, x): return ite(self.c, self.a.pk(x), self.b.pk(x))
    def size(self): return ite(self.c, self.a.size(), self.b.size())
    def key(self): return ('ite', tk(self.c), self.a.key(), self.b.key())
    def bases(self): return self.a.bases() | self.b.bases()
    def __repr__(self): return f'ite({self.c},{self.a},{self.b})'

def tk(x): return ('c', x) if isc(x) else ('t', x.get_id())

def tree_ite(c, a, b):
    if isinstance(c, bool): return a if c else b
    if a is b or a.key() == b.key(): return a
    return TIte(c, a, b)

# ---- settlement folds over a tree of reductions T and an index history C
_folds = {}
class Fold:
    """A(w0,i0,x): rewards credited for the keys of T up to x, I(i0,x): index position after them.
    Defined by: A(.,-1)=0, I(.,-1)=i0, and for consecutive keys c<k: A(k)=A(c)+floor((C[<k]-I(c))*(w0-S(c))/P), I(k)=C[<k]."""
    def __init__(self, T, C, n):
        self.T, self.C = T, C; self.ground = []
        self.A_ = z3.Function(f'A{n}', Z, Z, Z, Z); self.I_ = z3.Function(f'I{n}', Z, Z, Z)
        w, i, x = z3.Ints('w i x')
        self.ax = [z3.ForAll([w, i, x], z3.Implies(x < 0, self.A_(w, i, x) == 0), patterns=[self.A_(w, i, x)]),
                   z3.ForAll([i, x], z3.Implies(x < 0, self.I_(i, x) == i), patterns=[self.I_(i, x)])]
    def A(self, w0, i0, x):
        if isc(x) and x < 0: return 0
        return self.A_(zi(w0), zi(i0), zi(x))
    def I(self, i0, x):
        if isc(x) and x < 0: return i0
        return self.I_(zi(i0), zi(x))
    def gap(self, c, nk):
        """facts: c and nk are consecutive (no key strictly between): values constant on [c,nk)"""
        w, i, x = z3.Ints('w i x')
        c, nk = zi(c), zi(nk)
        return [z3.ForAll([w, i, x], z3.Implies(z3.And(c <= x, x < nk), self.A_(w, i, x) == self.A_(w, i, c)), patterns=[self.A_(w, i, x)]),
                z3.ForAll([i, x], z3.Implies(z3.And(c <= x, x < nk), self.I_(i, x) == self.I_(i, c)), patterns=[self.I_(i, x)])]
    def step(self, c, nk):
        w, i = z3.Ints('w i')
        v = self.C.idx(nk); zc, zn = zi(c), zi(nk)
        return [z3.ForAll([w, i], self.A_(w, i, zn) == self.A(w, i, c) + zi(credit(v, self.I(i, c), w, self.T.S(c))), patterns=[self.A_(w, i, zn)]),
                z3.ForAll([i], self.I_(i, zn) == zi(v), patterns=[self.I_(i, zn)])]
    def ground_step(self, w0, i0, c, nk):
        v = self.C.idx(nk)
        return [zi(self.A(w0, i0, nk)) == zi(self.A(w0, i0, c)) + zi(credit(v, self.I(i0, c), w0, self.T.S(c))), zi(self.I(i0, nk)) == zi(v)]

def credit(v, i, w0, s):
    """floor((v - i) * (w0 - s) / P)"""
    return div(mul(sub(v, i), sub(w0, s)), P16)

class ConcFold:
    def __init__(self, T, C): self.T, self.C = T, C
    def run(self, w0, i0, x):
        a, i, w = 0, i0, w0
        for k in self.T.keys:
            if k > x: break
            v = self.C.idx(k)
            a += ((v - i) * w) // P16; i = v; w -= self.T.d[k]
        return a, i
    def A(self, w0, i0, x): return self.run(w0, i0, x)[0]
    def I(self, i0, x): return self.run(0, i0, x)[1]

def fold(T, C):
    if isinstance(T, TConc): return ConcFold(T, C)
    k = (T.key(), C.key())
    if k not in _folds: _folds[k] = Fold(T, C, len(_folds))
    return _folds[k]
def folds_on(T):
    k = T.key()
    return [f for (a, _), f in _folds.items() if a == k]
def all_folds(): return list(_folds.values())
