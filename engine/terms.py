"""Integer/boolean terms: Python constants where known, z3 terms otherwise (constant folding, light normal form).
All arithmetic here is over mathematical integers; machine ranges are handled by the interpreter."""
import z3

z3.set_param('smt.mbqi', False)
z3.set_param('smt.auto_config', False)
z3.set_param('smt.qi.max_instances', 200000)

Z = z3.IntSort()
U64 = 2**64 - 1
P16 = 10**16
mulU = z3.Function('mul', Z, Z, Z)
divU = z3.Function('div', Z, Z, Z)

def isc(x): return isinstance(x, (int, bool))
def isb(x): return isinstance(x, bool) or (not isinstance(x, int) and z3.is_bool(x))
def zi(x):
    if isinstance(x, bool): return z3.BoolVal(x)
    if isinstance(x, int): return z3.IntVal(x)
    return x
def zb(x):
    if isinstance(x, bool): return z3.BoolVal(x)
    return x

def unz(t):
    """z3 numerals/booleans back to Python."""
    if isc(t): return t
    if z3.is_int_value(t): return t.as_long()
    if z3.is_true(t): return True
    if z3.is_false(t): return False
    return t

def same(a, b):
    if a is b: return True
    if isc(a) or isc(b):
        return isc(a) and isc(b) and isinstance(a, bool) == isinstance(b, bool) and a == b
    return a.eq(b)

def add(a, b):
    if isc(a) and isc(b): return a + b
    if isc(a) and a == 0: return b
    if isc(b) and b == 0: return a
    return zi(a) + zi(b)
def sub(a, b):
    if isc(a) and isc(b): return a - b
    if isc(b) and b == 0: return a
    if same(a, b): return 0
    return zi(a) - zi(b)
def neg(a): return sub(0, a)

def _ite_parts(t):
    if not isc(t) and z3.is_app_of(t, z3.Z3_OP_ITE): return t.arg(0), unz(t.arg(1)), unz(t.arg(2))
    return None
def _const_leaves(t, d=0):
    if isc(t): return True
    p = _ite_parts(t)
    return p is not None and d < 12 and _const_leaves(p[1], d+1) and _const_leaves(p[2], d+1)

def mul(a, b):
    if isc(a) and isc(b): return a * b
    if isc(b): a, b = b, a
    if isc(a):
        if a == 0: return 0
        if a == 1: return b
        return z3.IntVal(a) * b
    for x, y in ((a, b), (b, a)):
        if _const_leaves(x):
            c, t, e = _ite_parts(x)
            return ite(c, mul(t, y), mul(e, y))
    if a.get_id() > b.get_id(): a, b = b, a
    return mulU(a, b)

def _match_scaled(t):
    """t == k*u with integer literal k -> (k,u)"""
    if not isc(t) and z3.is_app_of(t, z3.Z3_OP_MUL) and t.num_args() == 2 and z3.is_int_value(t.arg(0)):
        return t.arg(0).as_long(), t.arg(1)
    return None
def _is_div(t): return not isc(t) and z3.is_app(t) and t.decl().eq(divU)

def div(a, b):
    """floor division of non-negative numbers (Rust unsigned division); b == 0 is excluded by the caller's path."""
    if isc(b) and b == 0: return 0
    if isc(a) and isc(b): return a // b
    if isc(b):
        if b == 1: return a
        m = _match_scaled(a)
        if m and m[0] % b == 0: return mul(m[0] // b, m[1])
        if _is_div(a):
            n = _match_scaled(unz(a.arg(0)))
            # floor(floor(k*x / d) / b) = floor((k/b)*x / d)
            if n and n[0] % b == 0: return div(mul(n[0] // b, n[1]), unz(a.arg(1)))
        p = _ite_parts(a)
        if p and (_match_scaled(p[1]) or isc(p[1]) or _is_div(p[1])) and (_match_scaled(p[2]) or isc(p[2]) or _is_div(p[2])):
            return ite(p[0], div(p[1], b), div(p[2], b))
        return a / z3.IntVal(b)
    return divU(zi(a), b)
def mod(a, b):
    if isc(a) and isc(b): return a % b if b else 0
    if isc(b):
        if b == 1: return 0
        return a % z3.IntVal(b)
    return sub(a, mul(b, div(a, b)))

def eq(a, b):
    if isc(a) and isc(b): return int(a) == int(b) if isinstance(a, bool) == isinstance(b, bool) else a == b
    if isb(a) or isb(b): return iff(a, b)
    if same(a, b): return True
    for x, y in ((a, b), (b, a)):
        if isc(y):
            p = _ite_parts(x)
            if p and _const_leaves(x): return ite(p[0], eq(p[1], y), eq(p[2], y))
    return zi(a) == zi(b)
def ne(a, b): return not_(eq(a, b))
def lt(a, b):
    if isc(a) and isc(b): return a < b
    if same(a, b): return False
    return zi(a) < zi(b)
def le(a, b):
    if isc(a) and isc(b): return a <= b
    if same(a, b): return True
    return zi(a) <= zi(b)
def gt(a, b): return lt(b, a)
def ge(a, b): return le(b, a)

def not_(a):
    if isinstance(a, bool): return not a
    if z3.is_not(a): return unz(a.arg(0))
    return z3.Not(a)
def and_(*xs):
    out = []
    for x in xs:
        if isinstance(x, (list, tuple)): x = and_(*x)
        if x is True: continue
        if x is False: return False
        if not any(x.eq(y) for y in out): out.append(x)
    if not out: return True
    if len(out) == 1: return out[0]
    return z3.And(*out)
def or_(*xs):
    out = []
    for x in xs:
        if isinstance(x, (list, tuple)): x = or_(*x)
        if x is False: continue
        if x is True: return True
        if not any(x.eq(y) for y in out): out.append(x)
    for x in out:
        n = not_(x)
        if any(not isc(n) and n.eq(y) for y in out): return True
    if not out: return False
    if len(out) == 1: return out[0]
    return z3.Or(*out)
def implies(a, b): return or_(not_(a), b)
def iff(a, b):
    if isinstance(a, bool): return b if a else not_(b)
    if isinstance(b, bool): return a if b else not_(a)
    if a.eq(b): return True
    return a == b
def ite(c, a, b):
    if isinstance(c, bool): return a if c else b
    if same(a, b): return a
    if isb(a) or isb(b):
        if a is True and b is False: return c
        if a is False and b is True: return not_(c)
        return z3.If(c, zb(a), zb(b))
    return z3.If(c, zi(a), zi(b))
def tmin(a, b): return ite(le(a, b), a, b)
def tmax(a, b): return ite(le(a, b), b, a)
def tsum(xs):
    r = 0
    for x in xs: r = add(r, x)
    return r

_n = [0]
def fresh(name, sort='int'):
    _n[0] += 1
    return z3.Int(f'{name}!{_n[0]}') if sort == 'int' else z3.Bool(f'{name}!{_n[0]}')
def var(name): return z3.Int(name)
def bvar(name): return z3.Bool(name)

x_, y_, z_ = z3.Ints('x y z')
_m, _d = mulU(x_, y_), divU(x_, y_)
ARITH_AXIOMS = [
    # facts about products and quotients of non-negative integers (symbolic factor/divisor)
    z3.ForAll([x_, y_], z3.And(_m == mulU(y_, x_), z3.Implies(z3.And(x_ >= 0, y_ >= 0), _m >= 0),
        z3.Implies(x_ == 0, _m == 0), z3.Implies(y_ == 0, _m == 0), z3.Implies(x_ == 1, _m == y_), z3.Implies(y_ == 1, _m == x_),
        z3.Implies(z3.And(x_ >= 1, y_ >= 0), _m >= y_), z3.Implies(z3.And(y_ >= 1, x_ >= 0), _m >= x_),
        z3.Implies(z3.And(x_ >= 0, y_ >= 0, x_ <= U64, y_ <= U64), _m <= U64 * U64)), patterns=[_m]),
    z3.ForAll([x_, y_], z3.Implies(z3.And(x_ >= 0, y_ > 0), z3.And(_d >= 0, _d <= x_, mulU(_d, y_) <= x_, x_ < mulU(_d, y_) + y_)), patterns=[_d]),
    z3.ForAll([x_, y_, z_], z3.Implies(z3.And(x_ >= 0, y_ > 0, z_ >= 0), (z_ <= _d) == (mulU(y_, z_) <= x_)), patterns=[z3.MultiPattern(_d, mulU(y_, z_))]),
]
