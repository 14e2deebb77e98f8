"""Symbolic values, memory and path state."""
import z3
from terms import *
import trees

class Unsupported(Exception):
    """The code uses something outside the verifier's reach (never reported as a violation)."""

class Val: __slots__ = ()
class Tup(Val):
    __slots__ = ('f',)
    def __init__(self, f): self.f = tuple(f)
    def __repr__(self): return 'Tup' + repr(self.f)
class Enm(Val):
    """enum value; d = variant index (int or term), alts = {variant: tuple of fields}"""
    __slots__ = ('d', 'alts')
    def __init__(self, d, alts): self.d, self.alts = d, alts
    def __repr__(self): return f'Enm({self.d},{self.alts})'
class BArr(Val):
    """[u8; n] as little-endian chunks (length, unsigned term)"""
    __slots__ = ('n', 'ch')
    def __init__(self, n, ch): self.n, self.ch = n, tuple(ch)
    def __repr__(self): return f'B{self.n}{self.ch}'
class Ptr(Val):
    """obj: memory object id; path: projections; off/meta: byte or element offset and length for slices"""
    __slots__ = ('obj', 'path', 'off', 'meta')
    def __init__(self, obj, path=(), off=0, meta=None): self.obj, self.path, self.off, self.meta = obj, path, off, meta
    def __repr__(self): return f'&{self.obj}{self.path}+{self.off}:{self.meta}'
class Fn(Val):
    __slots__ = ('inst',)
    def __init__(self, inst): self.inst = inst
class Opq(Val):
    """opaque value (formatting machinery, io errors)"""
    __slots__ = ('tag',)
    def __init__(self, tag): self.tag = tag
    def __repr__(self): return f'Opq({self.tag})'
class TreeV(Val):
    __slots__ = ('t',)
    def __init__(self, t): self.t = t
    def __repr__(self): return f'Tree({self.t})'
class Buf(Val):
    """account data or instruction data: byte buffer with typed leaves {offset: (size, value)}"""
    __slots__ = ('name', 'len', 'lv', 'zero')
    def __init__(self, name, ln, lv=None, zero=False): self.name, self.len, self.lv, self.zero = name, ln, lv or {}, zero
    def __repr__(self): return f'Buf({self.name},{self.lv})'
class TIter(Val):
    """iterator over a tree place: keys in (lo, hi) remain"""
    __slots__ = ('p', 'lo', 'hi', 'mut')
    def __init__(self, p, lo, hi, mut): self.p, self.lo, self.hi, self.mut = p, lo, hi, mut
    def __repr__(self): return f'TIter({self.p},{self.lo},{self.hi})'
class Vec(Val):
    """vector: optional prefix 'one item for each key of tree T that is <= c, ascending' (the key itself, or tm applied to it), then concrete items"""
    __slots__ = ('keys', 'items', 'tm')
    def __init__(self, items=(), keys=None, tm=None): self.items, self.keys, self.tm = tuple(items), keys, tm
    def __repr__(self): return f'Vec({self.keys},{self.items})'
class RefV(Val):
    """in a template: a reference to a value of its own"""
    __slots__ = ('v',)
    def __init__(self, v): self.v = v
    def same(self, o): return veq(self.v, o.v)
class Tmpl(Val):
    """item as a function of a key: v with x replaced"""
    __slots__ = ('x', 'v')
    def __init__(self, x, v): self.x, self.v = x, v
    def same(self, o): return veq(self.v, vsubst(o.v, o.x, self.x))
    def at(self, k): return vsubst(self.v, self.x, k)
def vsubst(v, x, k):
    if isinstance(v, Val):
        if isinstance(v, Tup): return Tup(vsubst(y, x, k) for y in v.f)
        if isinstance(v, Enm): return Enm(vsubst(v.d, x, k), {i: tuple(vsubst(y, x, k) for y in t) for i, t in v.alts.items()})
        if isinstance(v, RefV): return RefV(vsubst(v.v, x, k))
        if isinstance(v, Ptr): return Ptr(v.obj, tuple(tuple(vsubst(y, x, k) if isinstance(y, z3.ExprRef) else y for y in e) if isinstance(e, tuple) else e for e in v.path), v.off, v.meta)
        if isinstance(v, (Fn, Opq, Rc)): return v
        raise Unsupported(f'template of {v!r}'[:100])
    if isinstance(v, z3.ExprRef): return unz(z3.substitute(v, (x, zi(k))))
    return v
def vleaves(v):
    """scalar terms of a value"""
    if isinstance(v, Tup):
        for y in v.f: yield from vleaves(y)
    elif isinstance(v, Enm):
        yield v.d
        for t in v.alts.values():
            for y in t: yield from vleaves(y)
    elif isinstance(v, RefV): yield from vleaves(v.v)
    elif isinstance(v, Ptr):
        for e in v.path:
            if isinstance(e, tuple):
                for y in e:
                    if isinstance(y, z3.ExprRef): yield y
    elif not isinstance(v, Val): yield v
def consts_of(t, out, seen=None):
    """uninterpreted constants of a term"""
    if not isinstance(t, z3.ExprRef): return out
    seen = set() if seen is None else seen
    st = [t]
    while st:
        e = st.pop()
        if e.get_id() in seen: continue
        seen.add(e.get_id())
        if z3.is_const(e) and e.decl().kind() == z3.Z3_OP_UNINTERPRETED: out[e.decl().name()] = e
        st += e.children()
    return out
class VIter(Val):
    """iterator over a Vec/slice of values. pos: index into items; kpos: last key yielded of the symbolic prefix (-1 none)"""
    __slots__ = ('v', 'pos', 'kpos', 'ref')
    def __init__(self, v, pos, kpos, ref): self.v, self.pos, self.kpos, self.ref = v, pos, kpos, ref
    def __repr__(self): return f'VIter({self.v},{self.pos},{self.kpos})'
class SIter(Val):
    """slice iterator (accounts, bytes)"""
    __slots__ = ('p', 'pos')
    def __init__(self, p, pos=0): self.p, self.pos = p, pos
    def __repr__(self): return f'SIter({self.p},{self.pos})'
class Node(Val):
    """tree node handle: subtree holding exactly the keys in (lo, hi)"""
    __slots__ = ('p', 'lo', 'hi')
    def __init__(self, p, lo, hi): self.p, self.lo, self.hi = p, lo, hi
    def __repr__(self): return f'Node({self.p},{self.lo},{self.hi})'
class Rc(Val):
    __slots__ = ('slot', 'kind')
    def __init__(self, slot, kind): self.slot, self.kind = slot, kind
    def __repr__(self): return f'Rc({self.slot},{self.kind})'
class Guard(Val):
    __slots__ = ('cell', 'mut', 'p')
    def __init__(self, cell, mut, p): self.cell, self.mut, self.p = cell, mut, p
    def __repr__(self): return f'Guard({self.cell},{self.mut})'
class Lazy(Val):
    """lazily materialised aggregate: reading projects through ctx"""
    __slots__ = ('what', 'i')
    def __init__(self, what, i): self.what, self.i = what, i
    def __repr__(self): return f'Lazy({self.what},{self.i})'
UNINIT = Opq('uninit')
UNIT = Tup(())

def veq(a, b):
    """structural identity"""
    if a is b: return True
    if isinstance(a, Val) != isinstance(b, Val): return False
    if not isinstance(a, Val):
        if isinstance(a, (tuple, list)) and isinstance(b, (tuple, list)): return len(a) == len(b) and all(veq(x, y) for x, y in zip(a, b))
        if isinstance(a, (str, type(None), tuple, list, dict)) or isinstance(b, (str, type(None), tuple, list, dict)): return a == b
        return same(a, b)
    if type(a) is not type(b): return False
    if isinstance(a, Tup): return len(a.f) == len(b.f) and all(veq(x, y) for x, y in zip(a.f, b.f))
    if isinstance(a, Enm): return same(a.d, b.d) and a.alts.keys() == b.alts.keys() and all(veq(a.alts[k], b.alts[k]) for k in a.alts)
    if isinstance(a, BArr): return a.n == b.n and len(a.ch) == len(b.ch) and all(x[0] == y[0] and same(x[1], y[1]) for x, y in zip(a.ch, b.ch))
    if isinstance(a, Ptr): return a.obj == b.obj and peq(a.path, b.path) and veq(a.off, b.off) and veq(a.meta, b.meta)
    if isinstance(a, Fn): return a.inst == b.inst
    if isinstance(a, Opq): return a.tag == b.tag
    if isinstance(a, TreeV): return a.t is b.t or a.t.key() == b.t.key()
    if isinstance(a, Buf):
        return a.name == b.name and veq(a.len, b.len) and same(a.zero, b.zero) and a.lv.keys() == b.lv.keys() and all(a.lv[k][0] == b.lv[k][0] and veq(a.lv[k][1], b.lv[k][1]) for k in a.lv)
    if isinstance(a, TIter): return veq(a.p, b.p) and same(a.lo, b.lo) and same(a.hi, b.hi)
    if isinstance(a, Vec): return veq(a.items, b.items) and (a.keys is None) == (b.keys is None) and (a.keys is None or (a.keys[0].key() == b.keys[0].key() and same(a.keys[1], b.keys[1]))) and veq(a.tm, b.tm)
    if isinstance(a, VIter): return veq(a.v, b.v) and a.pos == b.pos and same(a.kpos, b.kpos)
    if isinstance(a, SIter): return veq(a.p, b.p) and veq(a.pos, b.pos)
    if isinstance(a, Node): return veq(a.p, b.p) and same(a.lo, b.lo) and same(a.hi, b.hi)
    if isinstance(a, Rc): return a.slot == b.slot and a.kind == b.kind
    if isinstance(a, Guard): return a.cell == b.cell and a.mut == b.mut and veq(a.p, b.p)
    if isinstance(a, Lazy): return a.what == b.what and a.i == b.i
    return a.same(b) if hasattr(a, 'same') else False

def peq(p, q):
    if p is q: return True
    if len(p) != len(q): return False
    for x, y in zip(p, q):
        if isinstance(x, tuple) and isinstance(y, tuple):
            if len(x) != len(y) or not all(veq(a, b) for a, b in zip(x, y)): return False
        elif x != y: return False
    return True

class CantMerge(Exception): pass

def vmerge(c, a, b):
    """ite(c, a, b) on values"""
    if veq(a, b): return a
    if isinstance(a, Val) != isinstance(b, Val): 
        if a is UNINIT or b is UNINIT: return b if a is UNINIT else a
        raise CantMerge()
    if not isinstance(a, Val):
        if isinstance(a, tuple):
            if not isinstance(b, tuple) or len(a) != len(b): raise CantMerge()
            return tuple(vmerge(c, x, y) for x, y in zip(a, b))
        if isinstance(a, (str, type(None))) or isinstance(b, (str, type(None))): raise CantMerge()
        if isb(a) != isb(b): raise CantMerge()
        return ite(c, a, b)
    if a is UNINIT: return b
    if b is UNINIT: return a
    if type(a) is not type(b): raise CantMerge()
    if isinstance(a, Tup):
        if len(a.f) != len(b.f): raise CantMerge()
        return Tup(vmerge(c, x, y) for x, y in zip(a.f, b.f))
    if isinstance(a, Enm):
        alts = {}
        for k in set(a.alts) | set(b.alts):
            if k in a.alts and k in b.alts: alts[k] = tuple(vmerge(c, x, y) for x, y in zip(a.alts[k], b.alts[k]))
            else: alts[k] = a.alts.get(k) if k in a.alts else b.alts[k]
        return Enm(ite(c, a.d, b.d), alts)
    if isinstance(a, BArr):
        if a.n != b.n: raise CantMerge()
        a2, b2 = align(a, b)
        if a2 is None: raise CantMerge()
        return BArr(a.n, [(l, ite(c, x, y)) for (l, x), (_, y) in zip(a2, b2)])
    if isinstance(a, TreeV): return TreeV(trees.tree_ite(c, a.t, b.t))
    if isinstance(a, Buf):
        if a.name != b.name or not same(a.zero, b.zero): raise CantMerge()
        lv = {}
        for k in set(a.lv) | set(b.lv):
            if k in a.lv and k in b.lv:
                if a.lv[k][0] != b.lv[k][0]: raise CantMerge()
                lv[k] = (a.lv[k][0], vmerge(c, a.lv[k][1], b.lv[k][1]))
            else:
                # a leaf read on one side only: same initial content (leaf variables are named by buffer and offset)
                s = a.lv.get(k) or b.lv[k]
                oth = b if k in a.lv else a
                ini = s_init(oth, k, s)
                if ini is None: raise CantMerge()
                lv[k] = (s[0], vmerge(c, s[1], ini) if k in a.lv else vmerge(c, ini, s[1]))
        return Buf(a.name, vmerge(c, a.len, b.len), lv, a.zero)
    if isinstance(a, Ptr):
        if a.obj == b.obj and peq(a.path, b.path) and a.meta is not None and b.meta is not None and veq(a.off, b.off): return Ptr(a.obj, a.path, a.off, ite(c, a.meta, b.meta))
        raise CantMerge()
    if isinstance(a, Opq): return Opq('merged')
    if isinstance(a, TIter) and veq(a.p, b.p): return TIter(a.p, ite(c, a.lo, b.lo), ite(c, a.hi, b.hi), a.mut)
    if isinstance(a, VIter) and veq(a.v, b.v) and a.pos == b.pos: return VIter(a.v, a.pos, ite(c, a.kpos, b.kpos), a.ref)
    if isinstance(a, Vec) and veq(a.items, b.items) and a.keys and b.keys and a.keys[0].key() == b.keys[0].key() and veq(a.tm, b.tm): return Vec(a.items, (a.keys[0], ite(c, a.keys[1], b.keys[1])), a.tm)
    if isinstance(a, Node) and veq(a.p, b.p): return Node(a.p, ite(c, a.lo, b.lo), ite(c, a.hi, b.hi))
    raise CantMerge()

def s_init(buf, off, leaf):
    """initial content of a leaf never touched in buf, shaped like `leaf`"""
    size, v = leaf
    if buf.zero:
        if isinstance(v, TreeV): return TreeV(trees.TEmpty(v.t.cap, False))
        return leaf_zero(v)
    return init_leaf(buf.name, off, size, v)
def leaf_zero(v):
    if isinstance(v, BArr): return BArr(v.n, [(l, 0) for l, _ in v.ch])
    return False if isb(v) else 0
_tree_leaf = {}
def init_leaf(name, off, size, like):
    if isinstance(like, TreeV):
        k = (name, off, size)
        return TreeV(_tree_leaf[k]) if k in _tree_leaf else None
    if isinstance(like, BArr):
        o = off; ch = []
        for l, _ in like.ch: ch.append((l, leaf_var(name, o, l))); o += l
        return BArr(like.n, ch)
    return leaf_var(name, off, size)
RANGE_AX = {}   # z3 const name -> range axiom
def leaf_var(name, off, size):
    n = f'{name}@{off}.{size}'
    v = z3.Int(n)
    RANGE_AX[n] = z3.And(v >= 0, v <= 2**(8*size) - 1)
    return v
def rng(v, bits, signed=False):
    if isc(v): return v
    RANGE_AX[v.decl().name()] = z3.And(v >= -(2**(bits-1)), v <= 2**(bits-1)-1) if signed else z3.And(v >= 0, v <= 2**bits - 1)
    return v

def cut(a, sizes):
    """re-chunk literal chunks to the given sizes where possible"""
    out, i, rest = [], 0, None
    ch = list(a.ch)
    for s in sizes:
        if not ch: return None
        l, v = ch.pop(0)
        while l < s and ch:
            l2, v2 = ch.pop(0)
            if isc(v) and isc(v2): v = v | (v2 << (8*l))
            elif isc(v2): v = add(v, v2 << (8*l))
            else: v = add(v, mul(1 << (8*l), v2))
            l += l2
        if l > s:
            if isc(v): ch.insert(0, (l - s, v >> (8*s))); v = v & ((1 << (8*s)) - 1)
            else: ch.insert(0, (l-s, div(v, 1 << (8*s)))); v = mod(v, 1 << (8*s))
            l = s
        out.append((l, v))
    return out if not ch else None
def align(a, b):
    """chunk lists with equal sizes"""
    if [l for l, _ in a.ch] == [l for l, _ in b.ch]: return a.ch, b.ch
    # use the coarser symbolic side
    for x, y, sw in ((a, b, False), (b, a, True)):
        c = cut(y, [l for l, _ in x.ch])
        if c is not None: return (c, x.ch) if sw else (x.ch, c)
    return None, None
def beq(a, b):
    if a.n != b.n: return False
    x, y = align(a, b)
    if x is None: raise Unsupported('byte array comparison')
    return and_(*[eq(p, q) for (_, p), (_, q) in zip(x, y)])
def bint(a):
    """whole array as one little-endian integer"""
    r, sh = 0, 0
    for l, v in a.ch:
        r = add(r, mul(1 << (8*sh), v)); sh += l
    return r
def bkey(v):
    """pubkey term of a 32-byte array value"""
    return bint(v)

class PC:
    """path condition entry: condition plus the iteration events it refers to"""
    __slots__ = ('e', 'ev')
    def __init__(self, e, ev=frozenset()): self.e, self.ev = e, ev

class State:
    __slots__ = ('mem', 'pc', 'log', 'lossy')
    def __init__(self): self.mem, self.pc, self.log, self.lossy = {}, (), (), ()
    def fork(self):
        s = State(); s.mem = dict(self.mem); s.pc, s.log, s.lossy = self.pc, self.log, self.lossy
        return s
    def assume(self, c, ev=None):
        if c is True: return self
        self.pc = self.pc + (PC(zb(c), frozenset((ev,)) if ev else frozenset()),)
        return self
