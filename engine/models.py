"""Models (assumed contracts) of library primitives the exporter does not follow, keyed by the resolved function name."""
import re
import z3
from terms import *
from values import *
import trees

class BoxV(Val):
    __slots__ = ('p',)
    def __init__(self, p): self.p = p
    def same(self, o): return veq(self.p, o.p)
class IxV(Val):
    """a CPI instruction built by a trusted constructor"""
    __slots__ = ('kind', 'a')
    def __init__(self, kind, a): self.kind, self.a = kind, a
    def same(self, o): return self.kind == o.kind and veq(tuple(self.a.values()), tuple(o.a.values()))
    def __repr__(self): return f'Ix({self.kind},{self.a})'

NONE = Enm(0, {0: ()})
def some(v): return Enm(1, {1: (v,)})
def opt(c, v):
    """Some(v) if c else None, without forking"""
    if c is True: return some(v)
    if c is False: return NONE
    return Enm(ite(c, 1, 0), {0: (), 1: (v,)})
def ok(v=UNIT): return Enm(0, {0: (v,)})
def err(v=Opq('err')): return Enm(1, {1: (v,)})

RULES = []
def model(*pats):
    def d(fn):
        for p in pats: RULES.append((re.compile(p), fn))
        return fn
    return d
_cache = {}
def find(name, f):
    if name in _cache: return _cache[name]
    r = None
    for p, fn in RULES:
        if p.search(name): r = fn; break
    _cache[name] = r
    return r

def rd(m, st, p): return m.read(st, p.obj, p.path)
def wrp(m, st, p, v): m.write(st, p.obj, p.path, v)
def local_ref(m, st, v): return Ptr(m.new_obj(st, v, 'O'))
def panic(m, st, why): return [('panic', st, why)] if m.keep_fail else []
def fork2(m, st, c, a, b):
    """a(st) under c, b(st) under not c; lists of outcomes"""
    out = []
    for s, t in m.branch(st, [(c, True), (not_(c), False)]): out += (a if t else b)(s)
    return out
def retty(m, f): return f["locals"][0] if "locals" in f else m.ret_t
def gty(m, t):
    """first type argument"""
    return [a for a in m.T(t)['args'] if not isinstance(a, dict)][0]

# ---------------------------------------------------------------- byte slices
def sub_bytes(b, off, n):
    out, o = [], 0
    for l, v in b.ch:
        a, e = max(o, off), min(o + l, off + n)
        if a < e:
            if a == o and e == o + l: out.append((l, v))
            else: out.append((e - a, mod(div(v, 1 << (8*(a-o))), 1 << (8*(e-a)))))
        o += l
    return BArr(n, out)
def slice_bytes(m, st, p):
    n = p.meta
    if n is None:
        v = rd(m, st, p)
        if isinstance(v, BArr): return v
        raise Unsupported(f'bytes of {v!r}'[:120])
    if not isc(n) or not isc(p.off): raise Unsupported('byte slice of symbolic length')
    if p.obj[0] == 'dangling': return BArr(0, ())
    if p.obj not in st.mem: m.materialise(st, p.obj)
    if isinstance(st.mem[p.obj], Buf) and not p.path: return m.bytes_at(st, p.obj, p.off, n)
    v = rd(m, st, p)
    if isinstance(v, BArr): return sub_bytes(v, p.off, n)
    if isinstance(v, Tup): return BArr(n, [(1, x) for x in v.f[p.off:p.off+n]])
    raise Unsupported(f'bytes of {v!r}'[:120])
def write_bytes_at(m, st, p, b):
    if isinstance(st.mem.get(p.obj), Buf) and not p.path:
        o = p.off
        m.drop_overlap(st, p.obj, o, b.n)
        for l, v in b.ch: m.set_leaf(st, p.obj, o, l, v); o += l
        return
    v = rd(m, st, p)
    if not isinstance(v, BArr): raise Unsupported('byte store')
    pre, post = sub_bytes(v, 0, p.off), sub_bytes(v, p.off + b.n, v.n - p.off - b.n)
    wrp(m, st, p, BArr(v.n, pre.ch + tuple(b.ch) + post.ch))

@model(r'^core::slice::<impl \[.*\]>::len$')
def slice_len(m, st, a, f, at): return [(st, a[0].meta)]
@model(r'^core::slice::<impl \[.*\]>::is_empty$')
def slice_is_empty(m, st, a, f, at): return [(st, eq(a[0].meta, 0))]
@model(r'^core::slice::<impl \[.*\]>::split_at(_mut)?$')
def split_at(m, st, a, f, at):
    p, n = a
    return fork2(m, st, le(n, p.meta),
        lambda s: [(s, Tup((Ptr(p.obj, p.path, p.off, n), Ptr(p.obj, p.path, add(p.off, n), sub(p.meta, n)))))],
        lambda s: panic(m, s, 'mid > len'))
@model(r'^core::slice::<impl \[.*\]>::iter(_mut)?$', r"^std::slice::Iter(Mut)?::<.*>::new$")
def slice_iter(m, st, a, f, at):
    if isinstance(a[0].meta, Opq): return [(st, VIter(rd(m, st, a[0]), 0, -1, True))]
    return [(st, SIter(a[0], 0))]
@model(r"^core::slice::<impl \[.*\]>::as_(mut_)?ptr$")
def as_ptr(m, st, a, f, at): return [(st, Ptr(a[0].obj, a[0].path, a[0].off))]
@model(r"^core::slice::<impl \[.*\]>::get::<usize>$")
def slice_get(m, st, a, f, at):
    p, i = a
    return [(st, opt(lt(i, p.meta), Ptr(p.obj, p.path + (('i', add(p.off, i)),))))]
@model(r"^core::slice::<impl \[.*\]>::(first)$")
def slice_first(m, st, a, f, at):
    p = a[0]
    return [(st, opt(lt(0, p.meta), Ptr(p.obj, p.path + (('i', p.off),))))]
@model(r"^<std::slice::Iter(Mut)?<'_, .*> as std::iter::IntoIterator>::into_iter$")
def siter_into(m, st, a, f, at): return [(st, a[0])]
@model(r"^<std::slice::Iter(Mut)?<'_, .*> as std::iter::Iterator>::next$")
def siter_next(m, st, a, f, at):
    it = rd(m, st, a[0])
    if isinstance(it, VIter): return viter_step(m, st, a[0])
    p = it.p
    if not isinstance(it, SIter): raise Unsupported(f'slice iterator {it!r}'[:100])
    def go(s):
        wrp(m, s, a[0], SIter(p, it.pos + 1))
        return [(s, some(Ptr(p.obj, p.path + (('i', add(p.off, it.pos)),))))]
    return fork2(m, st, lt(it.pos, p.meta), go, lambda s: [(s, NONE)])
@model(r"^<std::slice::Iter<'_, .*> as std::iter::(Iterator|ExactSizeIterator)>::(size_hint|len)$")
def siter_hint(m, st, a, f, at):
    it = rd(m, st, a[0]); n = sub(it.p.meta, it.pos)
    if f['name'].endswith('len'): return [(st, n)]
    return [(st, Tup((n, some(n))))]
@model(r"^<std::slice::Iter<'_, .*> as std::iter::Iterator>::enumerate$")
def siter_enum(m, st, a, f, at): return [(st, m.mkstruct(retty(m, f), {'iter': a[0], 'count': 0}))]
@model(r"^<std::slice::Iter<'_, .*> as std::iter::Iterator>::for_each::<")
def siter_for_each(m, st, a, f, at):
    it = rd(m, st, a[0]) if isinstance(a[0], Ptr) else a[0]
    p = it.p
    if not isc(p.meta) or not isc(p.off) or not isc(it.pos): raise Unsupported('for_each over a symbolic slice')
    name = re.search(r'::for_each::<(.*)>$', f['name']).group(1)
    inst = next((t['fn'] for t in m.types.values() if t['k'] == 'closure' and t['name'] == name and t.get('fn') in m.fns and m.fns[t['fn']]['body'] is not None), None)
    if inst is None: 
        if p.meta == it.pos: return [(st, UNIT)]
        raise Unsupported('closure of for_each')
    env = local_ref(m, st, a[1]); outs = [('ret', st, UNIT)]
    for j in range(it.pos, p.meta):
        nxt = []
        for k, s, v in outs:
            if k != 'ret': nxt.append((k, s, v)); continue
            nxt += m.exec_fn(s, inst, [env, Ptr(p.obj, p.path + (('i', p.off + j),))])
        outs = nxt
    return [(k, s, UNIT if k == 'ret' else v) for k, s, v in outs]
@model(r"^<std::slice::Iter<'_, u8> as std::iter::Iterator>::(all|any)::<")
def siter_all(m, st, a, f, at):
    it = rd(m, st, a[0])
    isall = '::all::<' in f['name']
    m2 = re.search(r'::(?:all|any)::<(.*)>$', f['name'])
    cl = [t for t in m.types.values() if t['k'] == 'closure' and t['name'] == m2.group(1)]
    inst = next((t['fn'] for t in cl if t.get('fn') in m.fns and m.fns[t['fn']]['body'] is not None), None)
    if inst is None: raise Unsupported('closure of all()')
    x = rng(fresh('byte'), 8)
    s2 = st.fork()
    env = local_ref(m, s2, a[1]); xo = local_ref(m, s2, x)
    outs = [(k, s, v) for k, s, v in m.exec_fn(s2, inst, [env, xo])]
    if len(outs) != 1 or not same(outs[0][2], eq(x, 0) if isall else ne(x, 0)): raise Unsupported('predicate of all() is not x == 0')
    p = it.p
    if p.path or p.off != 0 or it.pos != 0 or not isinstance(st.mem.get(p.obj), Buf): raise Unsupported('all() on a part')
    b = st.mem[p.obj]
    if not same(p.meta, b.len): raise Unsupported('all() on a part')
    if b.zero and not b.lv: return [(st, isall)]
    z = bvar('allzero_' + b.name)
    st.assume(or_(ne(b.len, 0), z))      # no byte at all
    def yes(s):
        for o, (sz, v) in b.lv.items():
            if isinstance(v, TreeV): raise Unsupported('all() over a tree')
            s.assume(eq(v, 0))
        s.mem[p.obj] = Buf(b.name, b.len, {}, True)
        return [(s, isall)]
    return fork2(m, st, z, yes, lambda s: [(s, not isall)])
@model(r"^solana_program::program_memory::sol_memset$")
def memset(m, st, a, f, at):
    p = a[0]
    if not (isinstance(p, Ptr) and p.meta is not None and same(p.meta, a[2])): raise Unsupported('memset of a part')
    return fill(m, st, [p, a[1]], f, at)
@model(r"^core::slice::<impl \[u8\]>::fill$")
def fill(m, st, a, f, at):
    p, v = a
    b = st.mem.get(p.obj)
    if isinstance(b, Buf) and not p.path and same(p.meta, b.len) and p.off == 0 and isc(v) and v == 0:
        st.mem[p.obj] = Buf(b.name, b.len, {}, True); return [(st, UNIT)]
    if isc(p.meta) and isc(p.off): 
        write_bytes_at(m, st, p, BArr(p.meta, [(1, v)]*p.meta if not (isc(v) and v == 0) else [(p.meta, 0)])); return [(st, UNIT)]
    raise Unsupported('fill of a part')
@model(r"^core::slice::<impl \[u8\]>::(copy_from_slice|clone_from_slice)$")
def copy_from(m, st, a, f, at):
    b = slice_bytes(m, st, a[1])
    return fork2(m, st, eq(a[0].meta, b.n), lambda s: (write_bytes_at(m, s, a[0], b), [(s, UNIT)])[1], lambda s: panic(m, s, 'slice lengths differ'))
@model(r"^core::slice::<impl \[u8\]>::to_vec$", r"^<\[u8\] as std::borrow::ToOwned>::to_owned$")
def to_vec(m, st, a, f, at): return [(st, slice_bytes(m, st, a[0]))]
@model(r"^core::slice::index::<impl std::ops::Index(Mut)?<std::ops::Range.*> for \[.*\]>::index(_mut)?$",
       r"^std::array::<impl std::ops::Index(Mut)?<std::ops::Range.*> for \[.*\]>::index(_mut)?$")
def slice_index(m, st, a, f, at):
    p, r = a
    n = p.meta
    if n is None:
        v = rd(m, st, p); n = v.n if isinstance(v, BArr) else len(v.f)
    k = re.search(r'std::ops::(Range\w*)', f['name']).group(1)
    fs = r.f if isinstance(r, Tup) else ()
    lo, hi = {'RangeFull': lambda: (0, n), 'RangeTo': lambda: (0, fs[0]), 'RangeFrom': lambda: (fs[0], n), 'Range': lambda: (fs[0], fs[1])}[k]()
    c = and_(le(lo, hi), le(hi, n))
    return fork2(m, st, c, lambda s: [(s, Ptr(p.obj, p.path, add(p.off, lo), sub(hi, lo)))], lambda s: panic(m, s, 'slice index out of bounds'))
@model(r'^core::str::<impl str>::(as_bytes|len)$')
def as_bytes(m, st, a, f, at): return [(st, a[0].meta if f['name'].endswith('len') else a[0])]
@model(r"^std::array::equality::<impl std::cmp::PartialEq for \[u8; \d+\]>::(eq|ne)$", r"std::array::equality::SpecArrayEq<u8, \d+>>::spec_(eq|ne)$", r"^std::intrinsics::raw_eq::<\[u8; \d+\]>$")
def arr_eq(m, st, a, f, at):
    c = beq(rd(m, st, a[0]), rd(m, st, a[1]))
    return [(st, not_(c) if re.search(r'ne$', f['name']) else c)]
@model(r"^core::slice::cmp::<impl std::cmp::PartialEq for \[u8\]>::(eq|ne)$", r"^<\[u8\] as std::cmp::PartialEq.*>::(eq|ne)$")
def slice_eq(m, st, a, f, at):
    x, y = slice_bytes(m, st, a[0]), slice_bytes(m, st, a[1])
    c = beq(x, y)
    return [(st, not_(c) if f['name'].endswith('ne') else c)]
@model(r"^std::array::<impl std::default::Default for \[u8; .*\]>::default$")
def arr_default(m, st, a, f, at): return [(st, m.zero(retty(m, f)))]
@model(r"^std::array::<impl std::convert::AsRef<\[u8\]> for \[u8; \d+\]>::as_ref$")
def arr_as_ref(m, st, a, f, at):
    v = rd(m, st, a[0]); return [(st, Ptr(a[0].obj, a[0].path, 0, v.n))]
@model(r'^solana_program::pubkey::Pubkey::to_bytes$')
def pk_bytes(m, st, a, f, at):
    v = a[0]
    return [(st, v.f[0] if isinstance(v, Tup) else v)]

# ---------------------------------------------------------------- integers
@model(r'^core::num::<impl ([ui]\d+|usize|isize)>::(checked|saturating|wrapping|overflowing|unchecked|abs|pow|min|max)')
def intops(m, st, a, f, at):
    mm = re.match(r'^core::num::<impl (\w+)>::(\w+?)_(\w+)$', f['name'])
    if not mm: return m.exec_fn(st, inst_of(m, f), a)
    ty, kind, op = mm.groups()
    bits, sg = {'usize': (64, False), 'isize': (64, True)}.get(ty) or (int(ty[1:]), ty[0] == 'i')
    fn = {'add': add, 'sub': sub, 'mul': mul}.get(op)
    if fn is None:
        if op in ('div', 'rem', 'div_euclid', 'rem_euclid') and not sg:
            g = div if op.startswith('div') else mod
            x, y = a
            if kind == 'checked': return [(st, opt(ne(y, 0), g(x, ite(eq(y, 0), 1, y) if isc(y) else y)))]
            return fork2(m, st, ne(y, 0), lambda s: [(s, g(x, y))], lambda s: panic(m, s, 'division by zero'))
        raise Unsupported('integer op ' + f['name'])
    x, y = a
    if isinstance(x, Ptr): x = rd(m, st, x)
    v = fn(x, y); okc = m.inrange(v, bits, sg)
    if kind == 'checked': return [(st, opt(okc, v))]
    if kind == 'saturating':
        if sg: raise Unsupported('signed saturation')
        if okc is not True: st.lossy = st.lossy + ((not_(okc), f'saturating_{op} at {m.site}'),)
        return [(st, ite(okc, v, (1 << bits) - 1 if op != 'sub' else 0))]
    if kind == 'wrapping': return [(st, m.wrap(st, v, bits, sg, f'wrapping_{op} at {m.site}'))]
    if kind == 'overflowing': return [(st, Tup((m.wrap(st, v, bits, sg, f'overflowing_{op} at {m.site}'), not_(okc))))]
    if kind == 'unchecked': return [(st, v)]
    raise Unsupported('integer op ' + f['name'])
def inst_of(m, f):
    for k, g in m.fns.items():
        if g is f: return k
@model(r'^std::intrinsics::saturating_(add|sub)')
def satintr(m, st, a, f, at):
    mm = re.match(r'^std::intrinsics::saturating_(add|sub)::<u(\d+|size)>', f['name'])
    bits = 64 if mm.group(2) == 'size' else int(mm.group(2))
    v = add(*a) if mm.group(1) == 'add' else sub(*a)
    okc = m.inrange(v, bits, False)
    if okc is not True: st.lossy = st.lossy + ((not_(okc), f'saturating_{mm.group(1)} at {m.site}'),)
    return [(st, ite(okc, v, (1 << bits) - 1 if mm.group(1) == 'add' else 0))]
@model(r'^core::num::<impl u(8|16|32|64|128)>::(from|to)_le_bytes$')
def lebytes(m, st, a, f, at):
    if '::from_' in f['name']: return [(st, bint(a[0]))]
    n = int(re.search(r'impl u(\d+)', f['name']).group(1)) // 8
    return [(st, BArr(n, [(n, a[0])]))]
@model(r'^std::cmp::(min|max)::<u\d+>$', r'^std::cmp::Ord::(min|max)', r'^<u\d+ as std::cmp::Ord>::(min|max)$', r'std::cmp::impls::<impl std::cmp::Ord for u\d+>::(min|max)$')
def minmax(m, st, a, f, at):
    return [(st, tmin(*a) if re.search(r'min(::<.*>)?$', f['name']) else tmax(*a))]
@model(r'^std::intrinsics::(cold_path|assert_inhabited|assume|black_box)')
def nop_intr(m, st, a, f, at): return [(st, UNIT)]

# ---------------------------------------------------------------- panics, formatting, logging
@model(r'^core::panicking::', r'^std::panicking::', r'^std::rt::', r'^std::option::(unwrap|expect)_failed', r'^std::result::unwrap_failed', r'slice_index_fail', r'^std::option::Option::.*::unwrap_failed')
def panics(m, st, a, f, at): return panic(m, st, f['name'][:60])
@model(r"^std::fmt::Formatter::<'_>::write_str$", r"^<std::fmt::Formatter<'_> as std::fmt::Write>::write_str$")
def write_str(m, st, a, f, at):
    st.log += (('text', slice_bytes(m, st, a[1])),); return [(st, ok(UNIT))]
@model(r'^core::fmt::rt::', r'^std::fmt::', r'^core::fmt::', r'^alloc::fmt::', r' as std::string::ToString>::to_string$', r'^<std::string::String', r'^std::string::', r' as std::fmt::\w+>::fmt$', r'^std::hint::must_use::<std::string', r"^<&str as std::convert::Into<std::string::String>>::into$")
def fmts(m, st, a, f, at): return [(st, Opq('fmt'))]
@model(r'^solana_program::log::')
def logs(m, st, a, f, at): return [(st, UNIT)]
@model(r'^(alloc::io|std::io)::(error::<impl std::io::Error>|Error)::(new|other)')
def ioerr(m, st, a, f, at): return [(st, Opq('ioerr'))]
@model(r'^solana_program::program_error::<impl .*From.*>', r'as std::convert::From<std::io::Error>>::from$', r'^borsh::de::unexpected_eof')
def errconv(m, st, a, f, at): return [(st, Opq('progerr'))]
@model(r'^<solana_program::program_error::ProgramError as std::convert::From<solana_program::pubkey::PubkeyError>>::from$')
def pkerr(m, st, a, f, at):
    return [(st, Enm(ite(eq(a[0].d, 2), 17, add(a[0].d, 12)), {12: (), 13: (), 17: ()}) if isinstance(a[0], Enm) else Opq('progerr'))]

# ---------------------------------------------------------------- borsh
def reader_take(m, st, rp, n, then, eof):
    p = rd(m, st, rp)
    def go(s):
        b = slice_bytes(m, s, Ptr(p.obj, p.path, p.off, n))
        wrp(m, s, rp, Ptr(p.obj, p.path, add(p.off, n), sub(p.meta, n)))
        return then(s, b)
    return fork2(m, st, le(n, p.meta), go, eof)
@model(r"^<(u8|u16|u32|u64|u128|bool|i64) as borsh::BorshDeserialize>::deserialize_reader::<&\[u8\]>$")
def borsh_int(m, st, a, f, at):
    t = re.match(r'<(\w+) ', f['name']).group(1)
    n = {'bool': 1}.get(t) or int(t[1:]) // 8
    def then(s, b):
        v = bint(b)
        if t == 'bool': return fork2(m, s, le(v, 1), lambda s: [(s, ok(eq(v, 1)))], lambda s: [(s, err())])
        if t[0] == 'i': v = ite(lt(v, 1 << (8*n-1)), v, sub(v, 1 << 8*n))
        return [(s, ok(v))]
    return reader_take(m, st, a[0], n, then, lambda s: [(s, err())])
@model(r"^<\[u8; (\d+)\] as borsh::BorshDeserialize>::deserialize_reader::<&\[u8\]>$")
def borsh_arr(m, st, a, f, at):
    n = int(re.match(r'<\[u8; (\d+)\]', f['name']).group(1))
    return reader_take(m, st, a[0], n, lambda s, b: [(s, ok(b))], lambda s: [(s, err())])
@model(r"impl std::io::Read for &\[u8\]>::read_exact$")
def read_exact(m, st, a, f, at):
    if not isc(a[1].meta): raise Unsupported('read_exact')
    def then(s, b): write_bytes_at(m, s, a[1], b); return [(s, ok())]
    return reader_take(m, st, a[0], a[1].meta, then, lambda s: [(s, err())])
@model(r"impl std::io::Write for std::vec::Vec<u8>>::write_all$", r"^<std::vec::Vec<u8> as std::io::Write>::write_all$", r"^std::vec::Vec::<u8>::extend_from_slice$")
def write_all(m, st, a, f, at):
    v = rd(m, st, a[0]); b = slice_bytes(m, st, a[1])
    wrp(m, st, a[0], BArr(v.n + b.n, v.ch + tuple(b.ch)))
    return [(st, ok() if 'write_all' in f['name'] else UNIT)]

@model(r"^<solana_program::program_error::ProgramError as solana_program::program_error::PrintProgramError>::print::<")
def print_error(m, st, a, f, at): return [(st, UNIT)]      # writes to the log only
@model(r"^(std|core)::slice::from_ref::<u8>$")
def slice_from_ref(m, st, a, f, at): return [(st, Ptr(m.new_obj(st, BArr(1, ((1, rd(m, st, a[0])),)), 'O'), (), 0, 1))]

# ---------------------------------------------------------------- Vec
@model(r"^std::vec::Vec::<u8>::(new|with_capacity)$")
def vec8_new(m, st, a, f, at): return [(st, BArr(0, ()))]
@model(r"^std::vec::Vec::<.*>::(new|with_capacity)$", r"^<std::vec::Vec<.*> as std::default::Default>::default$")
def vec_new(m, st, a, f, at): return [(st, Vec())]
@model(r"^std::vec::Vec::<u8>::push$")
def vec8_push(m, st, a, f, at):
    v = rd(m, st, a[0]); wrp(m, st, a[0], BArr(v.n + 1, v.ch + ((1, a[1]),))); return [(st, UNIT)]
@model(r"^std::vec::Vec::<.*>::push$")
def vec_push(m, st, a, f, at):
    v = rd(m, st, a[0]); wrp(m, st, a[0], Vec(v.items + (a[1],), v.keys, v.tm)); return [(st, UNIT)]
@model(r"^std::vec::Vec::<u8>::append$")
def vec8_append(m, st, a, f, at):
    v, b = rd(m, st, a[0]), rd(m, st, a[1])
    wrp(m, st, a[0], BArr(v.n + b.n, v.ch + tuple(b.ch))); wrp(m, st, a[1], BArr(0, ()))
    return [(st, UNIT)]
@model(r"^std::vec::Vec::<.*>::extend_from_slice$")
def vec_extend(m, st, a, f, at):
    """elements are plain data: their clones are equal to them"""
    v, p = rd(m, st, a[0]), a[1]
    if p.meta is None or not isc(p.meta) or not isc(p.off): raise Unsupported('slice of symbolic length')
    xs = tuple(m.read(st, p.obj, p.path + (('i', p.off + j),)) for j in range(p.meta))
    wrp(m, st, a[0], Vec(v.items + xs, v.keys, v.tm)); return [(st, UNIT)]
@model(r"^std::boxed::Box::<.*>::new$")
def box_new(m, st, a, f, at): return [(st, BoxV(local_ref(m, st, a[0])))]
@model(r"^<std::vec::Vec<u8> as std::ops::Deref(Mut)?>::deref(_mut)?$", r"^std::vec::Vec::<u8>::as_(mut_)?slice$", r"^<std::vec::Vec<u8> as std::convert::AsRef<\[u8\]>>::as_ref$")
def vec8_deref(m, st, a, f, at):
    v = rd(m, st, a[0]); return [(st, Ptr(a[0].obj, a[0].path, 0, v.n))]
@model(r"^<std::vec::Vec<.*> as std::ops::Deref(Mut)?>::deref(_mut)?$", r"^std::vec::Vec::<.*>::as_(mut_)?slice$")
def vec_deref(m, st, a, f, at):
    v = rd(m, st, a[0])
    if v.keys is not None: return [(st, Ptr(a[0].obj, a[0].path, 0, Opq('veclen')))]
    return [(st, Ptr(a[0].obj, a[0].path, 0, len(v.items)))]
@model(r"^std::vec::Vec::<.*>::len$", r"^std::vec::Vec::<.*>::is_empty$")
def vec_len(m, st, a, f, at):
    v = rd(m, st, a[0])
    if isinstance(v, BArr): n = v.n
    elif v.keys is not None: raise Unsupported('length of a symbolic vector')
    else: n = len(v.items)
    return [(st, n if f['name'].endswith('len') else n == 0)]
@model(r"^<std::vec::Vec<.*> as std::iter::IntoIterator>::into_iter$")
def vec_into_iter(m, st, a, f, at):
    if isinstance(a[0], BArr): raise Unsupported('byte vector iteration')
    return [(st, VIter(a[0], 0, -1, False))]
@model(r"^<&(mut )?std::vec::Vec<.*> as std::iter::IntoIterator>::into_iter$")
def vecref_into_iter(m, st, a, f, at): return [(st, VIter(rd(m, st, a[0]), 0, -1, True))]
@model(r"^<std::vec::IntoIter<.*> as std::iter::Iterator>::next$")
def viter_next(m, st, a, f, at): return viter_step(m, st, a[0])
def viter_step(m, st, ip):
    it = rd(m, st, ip); v = it.v
    wrap = (lambda s, x: local_ref(m, s, x)) if it.ref else (lambda s, x: x)
    def items(s):
        if it.pos < len(v.items):
            wrp(m, s, ip, VIter(v, it.pos + 1, it.kpos, it.ref)); return [(s, some(wrap(s, v.items[it.pos])))]
        return [(s, NONE)]
    if v.keys is None: return items(st)
    T, c = v.keys
    m.sym_iter = True
    m.iter_trees[ip.obj] = T
    out = []
    s, nk = m.ctx.event(st, T, it.kpos, add(c, 1), True)
    if m.ctx.feasible(s.pc):
        wrp(m, s, ip, VIter(v, it.pos, nk, it.ref)); out.append((s, some(wrap(s, vec_item(m, s, v, nk)))))
    s, _ = m.ctx.event(st, T, it.kpos, add(c, 1), False)
    if m.ctx.feasible(s.pc): out += items(s)
    return out
def vec_item(m, st, v, k):
    """item of the symbolic prefix for key k"""
    if v.tm is None: return k
    def inst(x):
        if isinstance(x, RefV): return local_ref(m, st, inst(x.v))
        if isinstance(x, Tup): return Tup(inst(y) for y in x.f)
        if isinstance(x, Enm): return Enm(x.d, {i: tuple(inst(y) for y in t) for i, t in x.alts.items()})
        return x
    return inst(v.tm.at(k))
def synth_loop(m, nxt, step, init, key):
    """one function: loop { match next(&mut it) { None => return acc, Some(x) => step(&mut acc, x) } } over the code's own next"""
    g = m.fns[nxt]
    if key not in m.fns:
        isz = next((int(i) for i, t in m.types.items() if t['k'] == 'int' and t['bits'] == 64 and t['signed']), None)
        tin, topt = g['locals'][1] if g.get('locals') else None, g['locals'][0] if g.get('locals') else None
        L = lambda n, *p: [n, list(p)]
        body = [
            [[['=', L(2), ['ref', L(1), 'm'], 0]], ['call', nxt, [['mv', L(2)]], L(3), 1, 0, topt, [tin]]],
            [[['=', L(4), ['discr', L(3), topt], 0]], ['switch', ['mv', L(4)], [['0', 3]], 2, isz]],
            [[['=', L(5), ['use', ['mv', L(3, ['d', 1], ['f', 0, None])]], 0], ['=', L(6), ['ref', L(7), 'm'], 0]], ['call', key + '#step', [['mv', L(6)], ['mv', L(5)]], L(8), 0, 0, None, []]],
            [[['=', L(0), ['use', ['mv', L(7)]], 0]], ['ret']]]
        m.fns[key] = dict(name='collecting ' + g['name'], nargs=1, spread=None, locals=[None]*9, body=body, dbg=[], file='', line=0, kind='item', intr=None, args=[], krate='verif')
        m.fns[key + '#step'] = dict(name='verif::step ' + key, nargs=2, body=None, locals=[None]*3, kind='item', args=[])
    return key
@model(r'^verif::step .*#vec$')
def step_vec(m, st, a, f, at): return vec_push(m, st, a, f, at)
def next_of(m, ty):
    """the instance of Iterator::next for an iterator type (by name)"""
    for k, f in m.fns.items():
        n = f['name']
        if n == f'<{ty} as std::iter::Iterator>::next' or n == f'std::boxed::iter::<impl std::iter::Iterator for {ty}>::next': return k
    raise Unsupported('next of ' + ty[:120])
def collect_into(m, st, ty, it, acc):
    nxt = next_of(m, ty); key = synth_loop(m, nxt, None, None, nxt + '#vec')
    return m.exec_fn(st, key, [it], {7: acc})
@model(r"^<std::vec::Vec<.*> as std::vec::spec_from_iter(_nested)?::SpecFromIter(Nested)?<.*>>::from_iter$")
def vec_from_iter(m, st, a, f, at):
    if f['name'].startswith('<std::vec::Vec<u8>'): raise Unsupported('byte vector collected')
    ty = [m.T(t)['name'] for t in f['args'] if not isinstance(t, dict)][-1]
    if isinstance(a[0], VIter) and a[0].pos == 0 and not a[0].ref and isc(a[0].kpos) and a[0].kpos == -1: return [(st, a[0].v)]
    return collect_into(m, st, ty, a[0], Vec())
@model(r"^std::vec::Vec::<.*>::extend_desugared::<.*>$")
def vec_extend_iter(m, st, a, f, at):
    ty = [m.T(t)['name'] for t in f['args'] if not isinstance(t, dict)][-1]
    if f['name'].startswith('std::vec::Vec::<u8>'): raise Unsupported('byte vector extended')
    out = []
    for k, s, v in collect_into(m, st, ty, a[1], rd(m, st, a[0])):
        if k == 'ret': wrp(m, s, a[0], v); v = UNIT
        out.append((k, s, v))
    return out
@model(r"^std::boxed::iter::<impl std::iter::Iterator for std::boxed::Box<dyn .*>>::size_hint$", r"^<std::vec::IntoIter<.*> as std::iter::Iterator>::size_hint$")
def any_hint(m, st, a, f, at):
    n = rng(fresh('hint'), 64); return [(st, Tup((n, NONE)))]     # nothing promised
@model(r"^std::boxed::Box::<.*>::new_uninit$")
def box_uninit(m, st, a, f, at):
    import interp
    return [(st, BoxV(local_ref(m, st, interp.Union(UNINIT))))]
@model(r"^std::boxed::box_assume_init_into_vec_unsafe::<", r"^alloc::slice::<impl \[.*\]>::into_vec::<|^std::slice::<impl \[.*\]>::into_vec")
def box_into_vec(m, st, a, f, at):
    b = a[0]
    v = rd(m, st, b.p if isinstance(b, BoxV) else b)
    import interp
    if isinstance(v, interp.Union):
        v = v.v
        if isinstance(v, Tup) and len(v.f) == 1: v = v.f[0]   # ManuallyDrop
    else:
        while isinstance(v, Tup) and len(v.f) == 1 and isinstance(v.f[0], Tup) : v = v.f[0]
    return [(st, v if isinstance(v, BArr) else Vec(tuple(v.f)))]
@model(r"^<std::vec::Vec<.*> as std::ops::Index(Mut)?<usize>>::index(_mut)?$")
def vec_index(m, st, a, f, at):
    v = rd(m, st, a[0])
    if v.keys is not None or not isc(a[1]): raise Unsupported('vector index')
    if a[1] >= len(v.items): return panic(m, st, 'index')
    return [(st, Ptr(a[0].obj, a[0].path + (('i', a[1]),)))]

# ---------------------------------------------------------------- Rc<RefCell<..>>
@model(r"^<std::rc::Rc<std::cell::RefCell<.*>> as std::clone::Clone>::clone$")
def rc_clone(m, st, a, f, at): return [(st, rd(m, st, a[0]))]
@model(r"^<std::rc::Rc<std::cell::RefCell<.*>> as std::(ops::Deref|convert::AsRef.*|borrow::Borrow.*)>::(deref|as_ref|borrow)$")
def rc_deref(m, st, a, f, at):
    r = rd(m, st, a[0])
    return m.deref_cell(st, r)
@model(r"^std::cell::RefCell::<.*>::(try_)?borrow(_mut)?$")
def refcell_borrow(m, st, a, f, at):
    cell = a[0].obj        # ('RC', rep, kind)
    mut = f['name'].endswith('_mut'); tr = '::try_' in f['name']
    k = ('cell',) + cell[1:]
    cur = st.mem.get(k, 0)
    if cur < 0 or (mut and cur > 0):
        return [(st, err())] if tr else panic(m, st, 'already borrowed')
    st.mem[k] = -1 if mut else cur + 1
    g = Guard(k, mut, m.cell_content(st, cell))
    return [(st, ok(g) if tr else g)]
@model(r"^<std::cell::Ref(Mut)?<'_, .*> as std::ops::Deref(Mut)?>::deref(_mut)?$")
def guard_deref(m, st, a, f, at):
    g = rd(m, st, a[0])
    if not isinstance(g, Guard): raise Unsupported(f'guard {g!r}')
    return [(st, g.p)]
@model(r"^solana_program::account_info::AccountInfo::<'_>::data_len$")
def data_len(m, st, a, f, at):
    out = []
    for s, cell in m.cells_of(st, a[0], 'data'):
        if s.mem.get(('cell', cell[1], 'data'), 0) < 0: out += [x for x in panic(m, s, 'already mutably borrowed')]; continue
        out.append((s, m.buf_of(s, cell[1]).len))
    return out
def drop(m, st, v):
    if isinstance(v, Guard):
        c = st.mem.get(v.cell, 0)
        st.mem[v.cell] = 0 if v.mut else c - 1
    elif isinstance(v, Tup):
        for x in v.f: drop(m, st, x)
    elif isinstance(v, Enm):
        if isc(v.d) and v.d in v.alts:
            for x in v.alts[v.d]: drop(m, st, x)
        else:
            for t in v.alts.values():
                for x in t:
                    if has_guard(x): raise Unsupported('conditional drop of a borrow')
def has_guard(v):
    if isinstance(v, Guard): return True
    if isinstance(v, Tup): return any(map(has_guard, v.f))
    if isinstance(v, Enm): return any(has_guard(x) for t in v.alts.values() for x in t)
    return False
@model(r'^std::mem::drop::<')
def mem_drop(m, st, a, f, at): drop(m, st, a[0]); return [(st, UNIT)]

# ---------------------------------------------------------------- ordered maps
def tree_of(m, st, p):
    v = rd(m, st, p)
    if not isinstance(v, TreeV): raise Unsupported(f'not a tree: {v!r}'[:100])
    return v.t
@model(r"^<sokoban::RedBlackTree<.*> as sokoban::NodeAllocatorMap<.*>>::get(_mut)?$")
def tree_get(m, st, a, f, at):
    T = tree_of(m, st, a[0]); k = rd(m, st, a[1])
    return [(st, opt(T.has(k), Ptr(a[0].obj, a[0].path + (('tval', k),))))]
@model(r"^<sokoban::RedBlackTree<.*> as sokoban::NodeAllocatorMap<.*>>::contains$")
def tree_contains(m, st, a, f, at): return [(st, tree_of(m, st, a[0]).has(rd(m, st, a[1])))]
@model(r"^<sokoban::RedBlackTree<.*> as sokoban::NodeAllocatorMap<.*>>::(len|is_empty|is_full|capacity|size)$", r"^sokoban::RedBlackTree::<.*>::(len|is_full|is_empty|capacity)$")
def tree_len(m, st, a, f, at):
    T = tree_of(m, st, a[0]); k = f['name'].rsplit('::', 1)[1]
    n = T.size()
    return [(st, {'len': n, 'is_empty': eq(n, 0), 'is_full': ge(n, T.cap), 'capacity': T.cap, 'size': n}[k])]
@model(r"^<sokoban::RedBlackTree<.*> as sokoban::NodeAllocatorMap<.*>>::insert$")
def tree_insert(m, st, a, f, at):
    p, k, v = a
    T = tree_of(m, st, p)
    okc = or_(T.has(k), lt(T.size(), T.cap)) if not (isinstance(T, trees.TEmpty) and not T.init) else False
    def yes(s):
        wrp(m, s, p, TreeV(trees.TIns(T, k, v))); return [(s, some(Opq('addr')))]
    def no(s):
        m.full_insert = True
        return [(s, NONE)]
    return fork2(m, st, okc, yes, no)
@model(r"^<sokoban::RedBlackTree<.*> as sokoban::NodeAllocatorMap<.*>>::remove$")
def tree_remove(m, st, a, f, at):
    T = tree_of(m, st, a[0]); k = rd(m, st, a[1])
    wrp(m, st, a[0], TreeV(trees.TRm(T, k)))
    return [(st, opt(T.has(k), T.val(k)))]
@model(r"^<sokoban::RedBlackTree<.*> as sokoban::NodeAllocatorMap<.*>>::iter(_mut)?$")
def tree_iter(m, st, a, f, at): return [(st, TIter(a[0], -1, trees.INF, f['name'].endswith('_mut')))]
@model(r"^<std::boxed::Box<dyn std::iter::DoubleEndedIterator.*> as std::iter::IntoIterator>::into_iter$")
def titer_into(m, st, a, f, at): return [(st, a[0])]
@model(r"^<std::boxed::Box<dyn std::iter::DoubleEndedIterator.*> as std::iter::Iterator>::rev$")
def titer_rev(m, st, a, f, at): return [(st, Tup((a[0],)))]
def titer_item(m, st, it, nk):
    if isinstance(it.p, Ptr): return Tup((local_ref(m, st, nk), Ptr(it.p.obj, it.p.path + (('tval', nk),))))
@model(r"^std::boxed::iter::<impl std::iter::Iterator for std::boxed::Box<dyn std::iter::DoubleEndedIterator.*>>::next$")
def titer_next(m, st, a, f, at):
    it = rd(m, st, a[0])
    if not isinstance(it, TIter): raise Unsupported(f'iterator {it!r}'[:100])
    T = tree_of(m, st, it.p); out = []
    if isinstance(T, trees.TEmpty): return [(st, NONE)]
    m.sym_iter = True; m.iter_trees[a[0].obj] = T
    s, nk = m.ctx.event(st, T, it.lo, it.hi, True)
    if m.ctx.feasible(s.pc):
        wrp(m, s, a[0], TIter(it.p, nk, it.hi, it.mut)); out.append((s, some(titer_item(m, s, it, nk))))
    s, _ = m.ctx.event(st, T, it.lo, it.hi, False)
    if m.ctx.feasible(s.pc): out.append((s, NONE))
    return out
@model(r"^std::boxed::iter::<impl std::iter::DoubleEndedIterator for std::boxed::Box<dyn std::iter::DoubleEndedIterator.*>>::next_back$")
def titer_back(m, st, a, f, at):
    it = rd(m, st, a[0])
    if not isinstance(it, TIter): raise Unsupported(f'iterator {it!r}'[:100])
    T = tree_of(m, st, it.p); out = []
    if isinstance(T, trees.TEmpty): return [(st, NONE)]
    m.sym_iter = True; m.iter_trees[a[0].obj] = T
    s, nk = m.ctx.event_back(st, T, it.lo, it.hi)
    if m.ctx.feasible(s.pc):
        wrp(m, s, a[0], TIter(it.p, it.lo, nk, it.mut)); out.append((s, some(titer_item(m, s, it, nk))))
    s, _ = m.ctx.event(st, T, it.lo, it.hi, False)
    if m.ctx.feasible(s.pc): out.append((s, NONE))
    return out
@model(r"^sokoban::RedBlackTree::<.*>::initialize$")
def tree_init(m, st, a, f, at):
    t = m.T(at[0])['e'] if at else None
    cap = m.tree_cap(t) if t is not None else tree_of(m, st, a[0]).cap
    out = []
    if m.keep_fail:      # panics unless the memory is zero
        v = rd(m, st, a[0])
        if not (isinstance(v, TreeV) and isinstance(v.t, trees.TEmpty) and not v.t.init): out = panic(m, st.fork(), 'map initialised again')
    wrp(m, st, a[0], TreeV(trees.TEmpty(cap, True)))
    return [(st, UNIT)] + out
@model(r"^<sokoban::RedBlackTree<.*> as std::default::Default>::default$", r"^sokoban::RedBlackTree::<.*>::new$")
def tree_new(m, st, a, f, at): return [(st, TreeV(trees.TEmpty(m.tree_cap(retty(m, f)), True)))]
def node_key(m, st, n):
    T = tree_of(m, st, n.p)
    key = (T.key(), trees.tk(n.lo), trees.tk(n.hi))
    if key not in m.nodekeys: m.nodekeys[key] = rng(fresh('node'), 64)
    return T, m.nodekeys[key]
def assume_node(m, st, T, n, k): st.assume(and_(lt(n.lo, k), lt(k, n.hi), T.has(k)))
@model(r"^sokoban::RedBlackTree::<.*>::get_node$")
def get_node(m, st, a, f, at):
    n = a[1]
    if not isinstance(n, Node): raise Unsupported('tree node id')
    T, k = node_key(m, st, n); assume_node(m, st, T, n, k)
    m.sym_iter = True
    t = m.T(retty(m, f))['e']
    o = m.new_obj(st, m.mkstruct(t, {'key': k, 'value': T.val(k)}))
    return [(st, Ptr(o))]
@model(r"^sokoban::RedBlackTree::<.*>::get_(left|right)$")
def get_child(m, st, a, f, at):
    n = a[1]
    if not isinstance(n, Node): raise Unsupported('tree node id')
    T, k = node_key(m, st, n); assume_node(m, st, T, n, k)
    m.sym_iter = True
    return [(st, Node(n.p, n.lo, k) if f['name'].endswith('left') else Node(n.p, k, n.hi))]
def node_cmp(m, st, op, x, y):
    if isinstance(y, Node): x, y = y, x
    if not (isc(y) and y == 0) or op not in ('Eq', 'Ne'): raise Unsupported('node comparison')
    T = tree_of(m, st, x.p)
    c = le(T.pk(x.hi), x.lo)
    return c if op == 'Eq' else not_(c)

@model(r"^<.* as sokoban::ZeroCopy>::load_(mut_)?bytes$")
def zc_load(m, st, a, f, at):
    p = a[0]
    rt = retty(m, f)
    # Option<&T>
    t = m.T([x for x in m.T(rt)['args'] if not isinstance(x, dict)][0])['e']
    n = m.size(t)
    if p.path: raise Unsupported('zero-copy view of a local array')
    return fork2(m, st, le(n, p.meta), lambda s: [(s, some(Ptr(p.obj, (('v', p.off, t),))))], lambda s: panic(m, s, 'slice index out of bounds'))
@model(r"^bytemuck::(try_)?from_bytes(_mut)?::<")
def bm_load(m, st, a, f, at):
    p = a[0]; rt = retty(m, f)
    tr = '::try_' in f['name']
    t = m.T([x for x in m.T(rt)['args'] if not isinstance(x, dict)][0] if tr else rt)['e']
    if p.path: raise Unsupported('zero-copy view of a local array')
    v = Ptr(p.obj, (('v', p.off, t),))
    return fork2(m, st, eq(m.size(t), p.meta), lambda s: [(s, ok(v) if tr else v)], lambda s: [(s, err())] if tr else panic(m, s, 'size'))

# ---------------------------------------------------------------- Solana runtime
def pkval(m, v):
    """pubkey value -> term"""
    if isinstance(v, Tup): v = v.f[0]
    return bkey(v)
def mkpk(t): return Tup((BArr(32, [(32, t)]),))
@model(r"^solana_program::sysvar::clock::<impl .*Sysvar for .*Clock>::get$")
def clock_get(m, st, a, f, at):
    t = [x for x in m.T(retty(m, f))['args'] if not isinstance(x, dict)][0]
    return [(st, ok(m.mkstruct(t, {'unix_timestamp': m.now}, lambda n, ft: rng(var('clock_' + n), 64))))]
@model(r"^solana_program::sysvar::rent::<impl .*Sysvar for .*Rent>::get$", r'^solana_program::rent::<?.*from_account_info')
def rent_get(m, st, a, f, at): return [(st, ok(Opq('rent')))]
rentmin = z3.Function('rentmin', Z, Z)
@model(r"^solana_program::rent::Rent::minimum_balance$")
def rent_min(m, st, a, f, at):
    v = rentmin(zi(a[1])); m.ctx.fresh_ax['rentmin'] = z3.ForAll([x_], z3.And(rentmin(x_) >= 0, rentmin(x_) <= U64), patterns=[rentmin(x_)])
    return [(st, v)]
@model(r"^solana_program::rent::Rent::is_exempt$")
def rent_exempt(m, st, a, f, at): return [(st, ge(a[1], rentmin(zi(a[2]))))]
@model(r"^<solana_program::clock::Clock as std::default::Default>::default$", r"^<solana_program::rent::Rent as std::default::Default>::default$")
def sysv_default(m, st, a, f, at): return [(st, Opq('sysvar'))]

def seeds_of(m, st, p):
    """&[&[u8]] -> concatenated chunk list"""
    v = rd(m, st, p)
    if isinstance(v, Tup): els = v.f[p.off: p.off + p.meta] if p.meta is not None else v.f
    elif isinstance(v, Vec) and v.keys is None: els = v.items[p.off: p.off + p.meta]
    else: raise Unsupported('seeds')
    ch = []
    for e in els:
        b = slice_bytes(m, st, e)
        if not any(l >= 8 for l, _ in b.ch) and all(isc(x) for _, x in b.ch) and b.ch:
            r, sh = 0, 0
            for l, x in b.ch: r |= x << (8*sh); sh += l
            ch.append((b.n, r))
        else: ch += b.ch
    return ch
_pda = {}
def pda_fn(shape):
    if shape not in _pda:
        n = 'pda_' + '_'.join(map(str, shape))
        k = len(shape)
        f = z3.Function(n, *([Z]*(k+2)))
        okf = z3.Function('ok' + n, *([Z]*(k+1)), z3.BoolSort())
        invs = [z3.Function(f'{n}_inv{i}', Z, Z) for i in range(k+1)]
        xs = [z3.Int(f'x{i}') for i in range(k+1)]
        ax = z3.ForAll(xs, z3.And(f(*xs) >= 0, f(*xs) < 2**256, *[invs[i](f(*xs)) == xs[i] for i in range(k+1)]), patterns=[f(*xs)])
        _pda[shape] = (f, okf, ax)
    return _pda[shape]
def norm_chunks(ch):
    """adjacent constants as one chunk"""
    out = []
    for l, v in ch:
        v = unz(v)
        if isinstance(v, int) and out and isinstance(out[-1][1], int): out[-1] = (out[-1][0] + l, out[-1][1] | v << 8*out[-1][0])
        else: out.append((l, v))
    return out
def pda(m, ch, prog):
    ch = norm_chunks(ch)
    shape = tuple(l for l, _ in ch)
    f, okf, ax = pda_fn(shape)
    m.ctx.fresh_ax['pda' + str(shape)] = ax
    args = [zi(v) for _, v in ch] + [zi(prog)]
    return f(*args), okf(*args)
@model(r"^solana_program::pubkey::Pubkey::create_program_address$")
def create_pda(m, st, a, f, at):
    k, okc = pda(m, seeds_of(m, st, a[0]), pkval(m, rd(m, st, a[1])))
    return fork2(m, st, okc, lambda s: [(s, ok(mkpk(k)))], lambda s: [(s, err(Enm(1, {1: ()})))])     # seeds of at most 32 bytes: InvalidSeeds (on the curve)
@model(r"^solana_program::pubkey::Pubkey::(try_)?find_program_address$")
def find_pda(m, st, a, f, at):
    ch = norm_chunks(seeds_of(m, st, a[0])); prog = pkval(m, rd(m, st, a[1]))
    shape = tuple(l for l, _ in ch)
    bf = z3.Function('bump_' + '_'.join(map(str, shape)), *([Z]*(len(shape)+2)))
    b = bf(*[zi(v) for _, v in ch], zi(prog))
    k, okc = pda(m, ch + [(1, b)], prog)
    st.assume(and_(le(0, b), le(b, 255), okc))
    r = Tup((mkpk(k), b))
    return [(st, some(r) if '::try_' in f['name'] else r)]
def rpk(m, st, p): return pkval(m, rd(m, st, p))
@model(r"^solana_program::system_instruction::create_account$")
def ix_create(m, st, a, f, at):
    return [(st, IxV('create_account', dict(src=rpk(m, st, a[0]), to=rpk(m, st, a[1]), lamports=a[2], space=a[3], owner=rpk(m, st, a[4]))))]
@model(r"^spl_token::instruction::transfer$")
def ix_transfer(m, st, a, f, at):
    if a[4].meta not in (0, None): raise Unsupported('multisig transfer')
    return [(st, ok(IxV('transfer', dict(program=rpk(m, st, a[0]), src=rpk(m, st, a[1]), to=rpk(m, st, a[2]), authority=rpk(m, st, a[3]), amount=a[5]))))]
@model(r"^spl_token::instruction::initialize_account$")
def ix_initacc(m, st, a, f, at):
    return [(st, ok(IxV('init_account', dict(program=rpk(m, st, a[0]), account=rpk(m, st, a[1]), mint=rpk(m, st, a[2]), owner=rpk(m, st, a[3])))))]
@model(r"^solana_program::program::(invoke|invoke_unchecked|invoke_signed|invoke_signed_unchecked)$")
def invoke(m, st, a, f, at):
    ix = rd(m, st, a[0])
    if not isinstance(ix, IxV): raise Unsupported(f'invoke of {ix!r}'[:100])
    infos = rd(m, st, a[1])
    els = infos.f[a[1].off:a[1].off + a[1].meta] if a[1].meta is not None else infos.f
    slots = []
    for i in els:
        rc = [x for x in i.f if isinstance(x, Rc)]
        if not rc: raise Unsupported('CPI account')
        slots.append(rc[0].slot)
    signers = []; grants = []
    if len(a) > 2:
        ss = rd(m, st, a[2])
        n = a[2].meta if a[2].meta is not None else None
        prog = m.program_id
        sl = ss.f[a[2].off:a[2].off + n] if n is not None and isinstance(ss, Tup) else ()
        for sp in sl:
            k, okc = pda(m, seeds_of(m, st, sp), prog)
            if m.keep_fail: grants.append(okc)
            else: st.assume(okc)
            signers.append(k)
    out = []
    if m.keep_fail:      # refused unless addresses, accounts and privileges are in order
        for key, sg, wr in METAS[ix.kind](ix.a) if ix.kind in METAS else [(None, 0, 0)]:
            if key is None: raise Unsupported('cross-program call of unknown kind')
            grants.append(or_(*[and_(eq(m.slot(i)['key'], key), m.slot(i)['writable'] if wr else True, or_(m.slot(i)['signer'], *[eq(key, x) for x in signers]) if sg else True) for i in slots]))
        if ix.kind == 'transfer':
            part = {}
            for k in ('src', 'to'):
                for i in [i for i in slots if same(m.slot(i)['key'], ix.a[k])][:1]:
                    d = ('D', st.mem.get(('alias', i), i)); m.buf_of(st, d[1]); part[k] = lambda o, n, d=d: bint(m.bytes_at(st, d, o, n))
            if len(part) < 2: raise Unsupported('transfer between unknown accounts')
            f, t = part['src'], part['to']; x = ix.a['amount']
            grants += [le(x, f(64, 8)), le(add(t(64, 8), x), U64), eq(f(0, 32), t(0, 32)), eq(f(32, 32), ix.a['authority'])]
        g = and_(*grants)
        if g is not True:
            bad = st.fork(); bad.assume(not_(g)); out += panic(m, bad, 'cross-program call refused: address, account or privilege')
            st.assume(g)
    for s, good in m.cpi(st, ix, slots, tuple(signers)):
        if good: out.append((s, ok()))
        else: out += panic(m, s, 'cross-program call refused: account data borrowed')
    return out
RENT_SYSVAR = int.from_bytes(bytes([6,167,213,23,25,44,92,81,33,140,201,76,61,74,241,127,88,218,238,8,155,161,253,68,227,219,217,138,0,0,0,0]), 'little')
METAS = dict(create_account=lambda a: [(a['src'], 1, 1), (a['to'], 1, 1)], transfer=lambda a: [(a['src'], 0, 1), (a['to'], 0, 1), (a['authority'], 1, 0)],
    init_account=lambda a: [(a['account'], 0, 1), (a['mint'], 0, 0), (a['owner'], 0, 0), (RENT_SYSVAR, 0, 0)])
@model(r"^solana_program::program::set_return_data$")
def set_ret(m, st, a, f, at):
    b = slice_bytes(m, st, a[0])
    st.log = tuple(e for e in st.log if e[0] != 'ret') + (('ret', b),)
    return [(st, UNIT)]
@model(r"^<spl_token::state::Account as solana_program::program_pack::Pack>::unpack(_unchecked)?$", r"^spl_token::state::Account::unpack")
def spl_unpack(m, st, a, f, at):
    p = a[0]
    if p.path or p.off != 0: raise Unsupported('unpack of a part')
    t = [x for x in m.T(retty(m, f))['args'] if not isinstance(x, dict)][0]
    def go(s):
        def key(o): return Tup((BArr(32, m.bytes_at(s, p.obj, o, 32).ch),))
        v = m.mkstruct(t, {'mint': key(0), 'owner': key(32), 'amount': bint(m.bytes_at(s, p.obj, 64, 8))}, lambda n, ft: Opq('spl_' + n))
        return [(s, ok(v))]
    return fork2(m, st, and_(eq(p.meta, 165), bvar('spl_initialised_' + st.mem[p.obj].name)), go, lambda s: [(s, err())])
