"""The instruction environment: accounts, instruction data, clock, cross-program calls."""
import z3
from terms import *
from values import *
import trees, models
from interp import Machine, Ctx

SPL = int.from_bytes(bytes([6,221,246,225,215,101,161,147,217,203,225,70,206,235,121,172,28,180,133,237,95,91,55,145,58,140,245,133,126,255,0,169]), 'little')
SYSTEM = 0

class World(Machine):
    def __init__(self, dump, ctx, keep_fail=False):
        super().__init__(dump, ctx, keep_fail)
        self.now = rng(var('NOW'), 62)
        self.program_id = rngk(var('PROGRAM'))
        self.nodekeys = {}; self.iter_trees = {}; self.full_insert = False
        self.nacc = rng(var('NACC'), 32)
        self.ai_t = None
        self.slots = []
        for k, t in self.types.items():
            if t['name'].startswith('solana_program::account_info::AccountInfo') and t['k'] == 'adt': self.ai_t = k
    def call(self, st, inst, args, argtys=None, where=''):
        self.site = where
        return super().call(st, inst, args, argtys, where)
    # -- accounts
    def start(self, ix_len=None, tag=None):
        st = State()
        st.mem[('accs',)] = Lazy('accs', 0)
        st.mem[('prog',)] = models.mkpk(self.program_id)
        lv = {0: (1, tag)} if tag is not None else {}
        st.mem[('IX',)] = Buf('IX', rng(var('IXLEN'), 32) if ix_len is None else ix_len, lv)
        st.assume(and_(le(0, self.now), lt(self.now, 2**62)))
        return st
    def slot(self, i):
        """facts about account slot i (duplicates share everything)"""
        while len(self.slots) <= i:
            j = len(self.slots)
            d = dict(key=rngk(var(f'key{j}')), owner=rngk(var(f'owner{j}')), signer=bvar(f'signer{j}'), writable=bvar(f'writable{j}'),
                     exe=bvar(f'exe{j}'), len=rng(var(f'len{j}'), 32))
            for e in self.slots:
                self.ctx.assume.append(z3.Implies(e['key'] == d['key'], z3.And(e['owner'] == d['owner'], e['signer'] == d['signer'], e['writable'] == d['writable'], e['len'] == d['len'])))
            self.slots.append(d)
        return self.slots[i]
    def ai(self, i):
        d = self.slot(i)
        fs = self.T(self.ai_t)['variants'][0]['f']
        m = {'key': Ptr(('key', i)), 'owner': Ptr(('owner', i)), 'lamports': Rc(i, 'lamports'), 'data': Rc(i, 'data'),
             'is_signer': d['signer'], 'is_writable': d['writable'], 'executable': d['exe'], 'rent_epoch': rng(var(f'epoch{i}'), 64)}
        return Tup(m.get(n) if n in m else Opq(n) for n, _ in fs)
    def proj(self, st, v, path, obj=None):
        if isinstance(v, Lazy) and v.what == 'accs' and path:
            if path[0][0] != 'i' or not isc(path[0][1]): raise Unsupported('symbolic account index')
            return super().proj(st, self.ai(path[0][1]), path[1:], obj)
        return super().proj(st, v, path, obj)
    def materialise(self, st, obj):
        k = obj[0]
        if k == 'key': v = models.mkpk(self.slot(obj[1])['key'])
        elif k == 'owner': v = models.mkpk(self.slot(obj[1])['owner'])
        elif k == 'D': v = self.buf_of(st, obj[1])
        elif k == 'LAM': v = rng(var(f'lamports{obj[1]}'), 64)
        elif k == 'PP': v = Ptr(('LAM', obj[1])) if obj[2] == 'lamports' else Ptr(('D', obj[1]), (), 0, self.buf_of(st, obj[1]).len)
        else: raise Unsupported(f'dangling object {obj}')
        st.mem[obj] = v
        return v
    def buf_of(self, st, rep):
        if ('D', rep) not in st.mem: st.mem[('D', rep)] = Buf(f'D{rep}', self.slot(rep)['len'])
        return st.mem[('D', rep)]
    def resolve(self, st, i):
        """representatives of slot i: [(state, rep)] — forks over aliasing with previously used accounts"""
        k = ('alias', i)
        if k in st.mem: return [(st, st.mem[k])]
        reps = sorted({v for kk, v in st.mem.items() if kk[0] == 'alias'})
        conds = []; neq = []
        ki = self.slot(i)['key']
        for r in reps:
            e = eq(ki, self.slot(r)['key'])
            conds.append((e, r)); neq.append(not_(e))
        conds.append((and_(*neq), i))
        out = []
        for s, r in self.branch(st, conds):
            s.mem[k] = r; out.append((s, r))
        return out
    def deref_cell(self, st, rc):
        return [(s, Ptr(('RC', r, rc.kind))) for s, r in self.resolve(st, rc.slot)]
    def cell_content(self, st, cell): return Ptr(('PP', cell[1], cell[2]))
    def cells_of(self, st, aip, kind):
        v = self.read(st, aip.obj, aip.path)
        rc = [x for x in v.f if isinstance(x, Rc) and x.kind == kind][0]
        return [(s, ('RC', r, kind)) for s, r in self.resolve(st, rc.slot)]
    # -- cross-program calls
    def cpi(self, st, ix, slots, signers):
        st = st.fork()
        st.log = st.log + (('cpi', ix, tuple(slots), signers),)
        outs = [st]; refused = []
        if ix.kind in ('create_account', 'transfer', 'init_account'):
            tgt = {'create_account': ['to'], 'transfer': ['src', 'to'], 'init_account': ['account']}[ix.kind]
            if self.keep_fail:       # data borrowed for writing: not even readable
                for t in {'create_account': ['src'], 'transfer': ['authority'], 'init_account': ['mint', 'owner']}[ix.kind]:
                    nxt = []
                    for s in outs:
                        sl = [i for i in slots if same(self.slot(i)['key'], ix.a[t])]
                        if not sl: nxt.append(s); continue
                        for s2, r in self.resolve(s, sl[0]): (refused if s2.mem.get(('cell', r, 'data'), 0) < 0 else nxt).append(s2)
                    outs = nxt
            for t in tgt:
                nxt = []
                for s in outs:
                    sl = [i for i in slots if same(self.slot(i)['key'], ix.a[t])]
                    if not sl: nxt.append(s); continue
                    for s2, r in self.resolve(s, sl[0]):
                        if s2.mem.get(('cell', r, 'data'), 0) != 0:
                            refused.append(s2); continue   # the runtime refuses: account borrowed
                        old = self.buf_of(s2, r)
                        if ix.kind == 'create_account':
                            s2.mem[('D', r)] = Buf(f'{old.name}c', ix.a['space'], {}, True)
                            s2.mem[('owner', sl[0])] = models.mkpk(ix.a['owner'])
                            if self.keep_fail:
                                s3 = s2.fork(); s3.assume(ne(old.len, 0)); refused.append(s3)
                            s2.assume(eq(old.len, 0))
                        else: s2.mem[('D', r)] = Buf(f'{old.name}t', old.len)
                        s2.mem.pop(('PP', r, 'data'), None)
                        nxt.append(s2)
                outs = nxt
        return [(s, True) for s in outs] + [(s, False) for s in refused]
    def force(self, st, v): raise Unsupported(f'lazy {v}')

def rngk(v):
    RANGE_AX[v.decl().name()] = z3.And(v >= 0, v < 2**256)
    return v
