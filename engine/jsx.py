"""Symbolic evaluation of the JavaScript client: the text that runs (types erased by the TypeScript compiler), all paths, symbolic inputs.

Paths are explored by re-execution: a run asks `decide` at a branch on a symbolic condition and the explorer backtracks over the answers."""
import z3
from terms import *
from values import Unsupported

class JThrow(Exception):
    def __init__(self, v): self.v = v
class Undef:
    def __repr__(self): return 'undefined'
    def __bool__(self): return False
UNDEF = Undef()
class Obj:
    __slots__ = ('p', 'proto', 'cls')
    def __init__(self, p=None, proto=None, cls=None): self.p, self.proto, self.cls = dict(p or {}), proto, cls
    def __repr__(self): return f'Obj{self.p}'
class Arr:
    __slots__ = ('a',)
    def __init__(self, a=()): self.a = list(a)
    def __repr__(self): return f'Arr{self.a}'
class MapV:
    __slots__ = ('d',)
    def __init__(self): self.d = {}
USED = set()     # named functions evaluated
class Clo:
    __slots__ = ('n', 'env', 'this', 'arrow', 'home', 'p')
    def __init__(self, n, env, this=UNDEF, arrow=False, home=None): self.n, self.env, self.this, self.arrow, self.home, self.p = n, env, this, arrow, home, {}
class Nat:
    """function of the environment, by its contract"""
    __slots__ = ('f', 'name', 'p')
    def __init__(self, f, name=''): self.f, self.name, self.p = f, name, {}
class Cls:
    __slots__ = ('n', 'env', 'sup', 'p', 'proto')
    def __init__(self, n, env, sup): self.n, self.env, self.sup, self.p, self.proto = n, env, sup, {}, Obj()
class Sy:
    """number, bigint or public key as a term"""
    __slots__ = ('t', 'k')
    def __init__(self, t, k): self.t, self.k = t, k
    def __repr__(self): return f'Sy({self.t},{self.k})'
class SyB:
    __slots__ = ('c',)
    def __init__(self, c): self.c = c
class Acct:
    """account handed over by the caller: not given (0), public key (1), program address with bump (2) or signer (3)"""
    __slots__ = ('name', 'kind', 'key')
    def __init__(self, name, kinds, x): self.name = name; self.kind = z3.Int(f'{name}_kind'); self.key = z3.Int(f'{name}_key'); x.bound(self, kinds)
class Env:
    __slots__ = ('v', 'up', 'const')
    def __init__(self, up=None): self.v, self.up = {}, up
    def find(self, n):
        e = self
        while e is not None:
            if n in e.v: return e
            e = e.up
        return None
class Ret(Exception):
    def __init__(self, v): self.v = v
class Brk(Exception): pass
class Cont(Exception): pass
TDZ = object()
class Link:
    """import binding, resolved when used"""
    __slots__ = ('f',)
    def __init__(self, f): self.f = f

class Explorer:
    """all paths of run(ctx)"""
    def __init__(self, limit=4000): self.limit = limit; self.solver = z3.Solver(); self.solver.set('timeout', 5000); self.queries = 0
    def paths(self, run):
        todo = [[]]; n = 0
        while todo:
            pre = todo.pop(); n += 1
            if n > self.limit: raise Unsupported('too many paths')
            self.choices, self.pos, self.pc, self.base = list(pre), 0, [], []
            try: r = ('ret', run(self))
            except JThrow as e: r = ('throw', e.v)
            for i in range(len(pre), len(self.choices)):
                for alt in self.alts[i]: todo.append(self.choices[:i] + [alt])
            yield r, list(self.pc)
    def bound(self, a, kinds): self.pc.append(z3.Or([a.kind == k for k in kinds])); self.pc.append(a.key >= 0)
    def sat(self, c):
        self.queries += 1
        self.solver.push(); self.solver.add(*self.pc); self.solver.add(c); r = self.solver.check(); self.solver.pop()
        return r != z3.unsat
    def pick(self, conds):
        """index of the condition that holds on this path"""
        if self.pos < len(self.choices): k = self.choices[self.pos]
        else:
            if self.pos == 0 and not self.choices: self.alts = {}
            ok = [i for i, c in enumerate(conds) if self.sat(c)]
            if not ok: raise Unsupported('path without continuation')
            k = ok[0]; self.choices.append(k); self.alts[self.pos] = ok[1:]
        self.pos += 1; self.pc.append(conds[k])
        return k
    def decide(self, c): return self.pick([c, z3.Not(c)]) == 0

class JS:
    def __init__(self, asts, natives, x):
        self.asts, self.natives, self.x = asts, natives, x
        self.mods = {}; self.steps = 0; self.loaded = []
    # -- modules
    def resolve(self, frm, src):
        import os.path
        b = os.path.normpath(os.path.join(os.path.dirname(frm), src))
        for c in (b + '.ts', b + '/index.ts', b):
            if c in self.asts: return c
        raise Unsupported(f'import {src}')
    def module(self, path):
        if path in self.mods: return self.mods[path]
        m = self.mods[path] = dict(env=Env(self.globals()), exports={}, stars=[])
        ast = self.asts[path]; env = m['env']; self.loaded.append(path)
        def source(s): 
            return (lambda n: self.external(s, n)) if not s.startswith('.') else (lambda n, p=self.resolve(path, s): self.export(p, n))
        body = []
        for n in ast['body']:
            t = n['type']
            if t == 'ImportDeclaration':
                g = source(n['source']['value'])
                for s in n['specifiers']:
                    loc = s['local']['name']
                    if s['type'] == 'ImportNamespaceSpecifier': raise Unsupported('namespace import')
                    nm = 'default' if s['type'] == 'ImportDefaultSpecifier' else s['imported']['name']
                    env.v[loc] = Link(lambda g=g, nm=nm: g(nm))
            elif t == 'ExportAllDeclaration': m['stars'].append(source(n['source']['value']))
            elif t == 'ExportNamedDeclaration':
                if n.get('declaration'):
                    body.append(n['declaration'])
                    for nm in declared(n['declaration']): m['exports'][nm] = Link(lambda e=env, nm=nm: self.get(e, nm))
                else:
                    g = source(n['source']['value']) if n.get('source') else (lambda nm, e=env: self.get(e, nm))
                    for s in n['specifiers']: m['exports'][s['exported']['name']] = Link(lambda g=g, nm=s['local']['name']: g(nm))
            elif t == 'ExportDefaultDeclaration': raise Unsupported('default export')
            else: body.append(n)
        self.hoist(body, env)
        for n in body: self.stmt(n, env)
        return m
    def export(self, path, name):
        m = self.module(path)
        if name in m['exports']: return m['exports'][name].f()
        for s in m['stars']:
            v = s(name)
            if v is not None: return v
        return None
    def external(self, pkg, name):
        v = self.natives.get((pkg, name))
        if v is None: raise Unsupported(f'{name} of {pkg}')
        return v
    def globals(self):
        e = Env()
        for (p, n), v in self.natives.items():
            if p == '': e.v[n] = v
        return e
    # -- variables
    def get(self, env, n):
        e = env.find(n)
        if e is None:
            if n == 'undefined': return UNDEF
            raise Unsupported(f'global {n}')
        v = e.v[n]
        if v is TDZ: raise Unsupported(f'{n} used before its definition')
        if isinstance(v, Link):
            v = v.f()
            if v is None: raise Unsupported(f'no export {n}')
        return v
    def hoist(self, body, env):
        for n in body:
            if n['type'] == 'FunctionDeclaration': env.v[n['id']['name']] = Clo(n, env)
            elif n['type'] == 'ClassDeclaration': env.v[n['id']['name']] = TDZ
            elif n['type'] == 'VariableDeclaration':
                for d in n['declarations']:
                    for nm in names(d['id']): env.v[nm] = UNDEF if n['kind'] == 'var' else TDZ
    def block(self, body, env):
        self.hoist(body, env)
        for n in body: self.stmt(n, env)
    def stmt(self, n, env):
        self.steps += 1
        if self.steps > 2000000: raise Unsupported('too many steps')
        t = n['type']
        if t == 'VariableDeclaration':
            for d in n['declarations']:
                if d['init'] is None:
                    if n['kind'] != 'var': self.bind(d['id'], UNDEF, env)
                    continue
                self.bind(d['id'], self.ev(d['init'], env), env)
        elif t == 'ExpressionStatement': self.ev(n['expression'], env)
        elif t == 'ReturnStatement': raise Ret(self.ev(n['argument'], env) if n['argument'] else UNDEF)
        elif t == 'IfStatement':
            if self.truth(self.ev(n['test'], env)): self.stmt(n['consequent'], Env(env))
            elif n['alternate']: self.stmt(n['alternate'], Env(env))
        elif t == 'BlockStatement': self.block(n['body'], Env(env))
        elif t in ('FunctionDeclaration', 'EmptyStatement'): pass
        elif t == 'ClassDeclaration': env.v[n['id']['name']] = self.cls(n, env)
        elif t == 'ThrowStatement': raise JThrow(self.ev(n['argument'], env))
        elif t == 'ForOfStatement':
            for x in self.iter(self.ev(n['right'], env)):
                e = Env(env)
                if n['left']['type'] == 'VariableDeclaration': self.bind(n['left']['declarations'][0]['id'], x, e)
                else: self.assign(n['left'], x, env)
                try: self.stmt(n['body'], e)
                except Cont: continue
                except Brk: break
        elif t in ('ForStatement', 'WhileStatement', 'DoWhileStatement'):
            e = Env(env)
            if n.get('init'):
                if n['init']['type'] == 'VariableDeclaration': self.hoist([n['init']], e); self.stmt(n['init'], e)
                else: self.ev(n['init'], e)
            first = t == 'DoWhileStatement'
            while first or n.get('test') is None or self.truth(self.ev(n['test'], e)):
                first = False; b = Env(e)
                try: self.stmt(n['body'], b)
                except Cont: pass
                except Brk: break
                if n.get('update'): self.ev(n['update'], e)
        elif t == 'BreakStatement' and not n.get('label'): raise Brk()
        elif t == 'ContinueStatement' and not n.get('label'): raise Cont()
        elif t == 'SwitchStatement':
            d = self.ev(n['discriminant'], env); e = Env(env); hit = None
            for i, c in enumerate(n['cases']):
                if c['test'] is not None and self.truth(self.binop('===', d, self.ev(c['test'], e))): hit = i; break
            if hit is None: hit = next((i for i, c in enumerate(n['cases']) if c['test'] is None), None)
            if hit is not None:
                try:
                    for c in n['cases'][hit:]: self.block(c['consequent'], e)
                except Brk: pass
        elif t == 'TryStatement':
            try:
                try: self.stmt(n['block'], env)
                except JThrow as ex:
                    if not n['handler']: raise
                    e = Env(env)
                    if n['handler']['param']: self.bind(n['handler']['param'], ex.v, e)
                    self.stmt(n['handler']['body'], e)
            finally:
                if n['finalizer']: self.stmt(n['finalizer'], env)
        else: raise Unsupported(f'statement {t}')
    def bind(self, p, v, env):
        t = p['type']
        if t == 'Identifier': env.v[p['name']] = v
        elif t == 'AssignmentPattern': self.bind(p['left'], self.ev(p['right'], env) if v is UNDEF else v, env)
        elif t == 'ObjectPattern':
            used = []
            for q in p['properties']:
                if q['type'] == 'RestElement':
                    self.bind(q['argument'], Obj({k: w for k, w in self.own(v) if k not in used}), env)
                else:
                    k = self.key(q, env); used.append(k); self.bind(q['value'], self.prop(v, k), env)
        elif t == 'ArrayPattern':
            xs = list(self.iter(v))
            for i, q in enumerate(p['elements']):
                if q is None: continue
                if q['type'] == 'RestElement': self.bind(q['argument'], Arr(xs[i:]), env)
                else: self.bind(q, xs[i] if i < len(xs) else UNDEF, env)
        else: raise Unsupported(f'pattern {t}')
    # -- values
    def split(self, a):
        """an account of a definite kind"""
        k = self.x.pick([a.kind == i for i in range(4)])
        pk = Sy(a.key, 'pk')
        if k == 0: return UNDEF
        if k == 1: return pk
        if k == 2: return Arr([pk, Sy(z3.Int(f'{a.name}_bump'), 'int')])
        return Obj({'publicKey': pk, 'signMessage': Nat(self.nope, 'signMessage'), 'signTransaction': Nat(self.nope, 'signTransaction'), 'signAllTransactions': Nat(self.nope, 'signAllTransactions')}, cls=('signer', a.name))
    def nope(self, js, a, this): raise Unsupported('signing')
    def truth(self, v):
        if isinstance(v, SyB): return v.c if isinstance(v.c, bool) else self.x.decide(v.c)
        if isinstance(v, Acct): return self.x.decide(v.kind != 0)
        if isinstance(v, Sy): return True if v.k == 'pk' else self.x.decide(v.t != 0)
        if v is None or v is UNDEF: return False
        if isinstance(v, (bool, int, float, str)): return bool(v)
        return True
    def nullish(self, v):
        if isinstance(v, Acct): return self.x.decide(v.kind == 0)
        return v is None or v is UNDEF
    def own(self, v):
        if isinstance(v, Acct): v = self.split(v)
        if isinstance(v, Obj): return list(v.p.items())
        if isinstance(v, Arr): return [(str(i), y) for i, y in enumerate(v.a)]
        if v is None or v is UNDEF or isinstance(v, (bool, int)): return []
        raise Unsupported('properties of a value')
    def iter(self, v):
        if isinstance(v, Acct): v = self.split(v)
        if isinstance(v, Arr): return list(v.a)
        if isinstance(v, MapV): return [Arr([k, w]) for k, w in v.d.items()]
        raise Unsupported('iteration')
    def key(self, p, env):
        if p.get('computed'): return self.pkey(self.ev(p['key'], env))
        k = p['key']; return k['name'] if k['type'] == 'Identifier' else self.pkey(self.ev(k, env))
    def pkey(self, k):
        if isinstance(k, bool): return 'true' if k else 'false'
        if isinstance(k, (int, str)): return str(k)
        raise Unsupported('computed key')
    def prop(self, o, k):
        if isinstance(o, Acct): o = self.split(o)
        if o is None or o is UNDEF: raise JThrow(f'cannot read {k} of {o}')
        if isinstance(o, Obj):
            q = o
            while q is not None:
                if k in q.p: return q.p[k]
                q = q.proto
            if k == 'hasOwnProperty': return Nat(lambda js, a, this: js.pkey(a[0]) in o.p)
            return UNDEF
        if isinstance(o, Arr):
            if k == 'length': return len(o.a)
            if k.isdigit(): return o.a[int(k)] if int(k) < len(o.a) else UNDEF
            m = ARRAY.get(k)
            if m is None: raise Unsupported(f'array method {k}')
            return Nat(lambda js, a, this, m=m, o=o: m(js, o, a), k)
        if isinstance(o, MapV):
            m = MAP.get(k)
            if m is None: raise Unsupported(f'map method {k}')
            return Nat(lambda js, a, this, m=m, o=o: m(js, o, a), k)
        if isinstance(o, (Nat, Clo, Cls)):
            if k in o.p: return o.p[k]
            if k == 'prototype' and isinstance(o, Cls): return o.proto
            if k in ('call', 'apply', 'bind'):
                if k == 'call': return Nat(lambda js, a, this: js.call(o, a[1:], a[0]))
                if k == 'apply': return Nat(lambda js, a, this: js.call(o, list(js.iter(a[1])), a[0]))
            raise Unsupported(f'property {k} of a function')
        if isinstance(o, str):
            if k == 'length': return len(o)
            if k.isdigit(): return o[int(k)] if int(k) < len(o) else UNDEF
            m = STRING.get(k)
            if m: return Nat(lambda js, a, this: m(js, o, a))
        raise Unsupported(f'property {k}')
    def setprop(self, o, k, v):
        if isinstance(o, (Obj, Nat, Clo, Cls)): o.p[k] = v
        elif isinstance(o, Arr) and k.isdigit():
            i = int(k)
            if i > len(o.a): raise Unsupported('sparse array')
            if i == len(o.a): o.a.append(v)
            else: o.a[i] = v
        else: raise Unsupported('assignment to a property')
    def assign(self, p, v, env):
        t = p['type']
        if t == 'Identifier':
            e = env.find(p['name'])
            if e is None: raise Unsupported('assignment to a global')
            e.v[p['name']] = v
        elif t == 'MemberExpression':
            o = self.ev(p['object'], env); self.setprop(o, self.pkey(self.ev(p['property'], env)) if p['computed'] else p['property']['name'], v)
        else: raise Unsupported(f'assignment to {t}')
    def call(self, f, args, this=UNDEF):
        if isinstance(f, Nat): return f.f(self, args, this)
        if isinstance(f, Clo):
            n = f.n
            if n.get('generator'): raise Unsupported('generator')
            if n.get('id'): USED.add(n['id']['name'])
            env = Env(f.env)
            if not f.arrow: env.v['this'] = this; env.v['arguments'] = Arr(args)
            if f.home is not None: env.v['%home'] = f.home
            ps = n['params']
            for i, p in enumerate(ps):
                if p['type'] == 'RestElement': self.bind(p['argument'], Arr(args[i:]), env)
                else: self.bind(p, args[i] if i < len(args) else UNDEF, env)
            if n['body']['type'] != 'BlockStatement': return self.ev(n['body'], env)
            try: self.block(n['body']['body'], env)
            except Ret as r: return r.v
            return UNDEF
        if isinstance(f, Obj) and f.cls == 'callable': return f.p['%call'].f(self, args, this)
        raise JThrow('not a function')
    def cls(self, n, env):
        sup = self.ev(n['superClass'], env) if n['superClass'] else None
        c = Cls(n, env, sup)
        if sup is not None: c.proto.proto = sup.proto if isinstance(sup, Cls) else None
        for m in n['body']['body']:
            if m['type'] == 'MethodDefinition' and m['kind'] == 'method':
                (c.p if m['static'] else c.proto.p)[self.key(m, env)] = Clo(m['value'], env, home=c)
            elif m['type'] == 'MethodDefinition' and m['kind'] == 'constructor': pass
            elif m['type'] == 'PropertyDefinition':
                if m['static']: c.p[self.key(m, env)] = self.ev(m['value'], env) if m['value'] else UNDEF
            else: raise Unsupported('class member')
        return c
    def construct(self, c, args, obj=None):
        if isinstance(c, Nat):
            if '%new' in c.p: return c.p['%new'](self, args, obj)
            raise Unsupported(f'new {c.name}')
        if not isinstance(c, Cls): raise Unsupported('new of a function')
        obj = obj or Obj(proto=c.proto, cls=c)
        ctor = next((m['value'] for m in c.n['body']['body'] if m['type'] == 'MethodDefinition' and m['kind'] == 'constructor'), None)
        def init():
            for m in c.n['body']['body']:
                if m['type'] == 'PropertyDefinition' and not m['static']:
                    e = Env(c.env); e.v['this'] = obj; obj.p[self.key(m, c.env)] = self.ev(m['value'], e) if m['value'] else UNDEF
        if c.sup is None: init()
        if ctor is None:
            if c.sup is not None: self.construct(c.sup, args, obj); init()
            return obj
        env = Env(c.env)
        def sup(js, a, this): js.construct(c.sup, a, obj); init(); return UNDEF
        env.v['%super'] = Nat(sup)
        self.call(Clo(ctor, env), args, obj)
        return obj
    # -- expressions
    def ev(self, n, env):
        self.steps += 1
        f = getattr(self, 'x_' + n['type'], None)
        if f is None: raise Unsupported(f'expression {n["type"]}')
        return f(n, env)
    def x_Identifier(self, n, env): return self.get(env, n['name'])
    def x_ThisExpression(self, n, env): return self.get(env, 'this') if env.find('this') else UNDEF
    def x_Literal(self, n, env):
        v = n['value']
        if isinstance(v, dict) and '$big' in v: return int(v['$big'])
        if n.get('bigint') is not None: return int(n['bigint'])
        if n.get('regex'): raise Unsupported('regular expression')
        if isinstance(v, float) and v == int(v): return int(v)
        return v
    def x_TemplateLiteral(self, n, env):
        s = ''
        for i, q in enumerate(n['quasis']):
            s += q['value']['cooked']
            if i < len(n['expressions']):
                v = self.ev(n['expressions'][i], env)
                if not isinstance(v, (str, int)): raise Unsupported('template of a symbolic value')
                s += str(v)
        return s
    def x_ObjectExpression(self, n, env):
        o = Obj()
        for p in n['properties']:
            if p['type'] == 'SpreadElement': o.p.update(dict(self.own(self.ev(p['argument'], env))))
            elif p['kind'] != 'init': raise Unsupported('accessor')
            else:
                k = self.key(p, env)
                o.p[k] = self.ev(p['value'], env)
        return o
    def x_ArrayExpression(self, n, env): return Arr(self.args(n['elements'], env))
    def args(self, l, env):
        r = []
        for a in l:
            if a is None: raise Unsupported('hole')
            if a['type'] == 'SpreadElement': r += list(self.iter(self.ev(a['argument'], env)))
            else: r.append(self.ev(a, env))
        return r
    def x_FunctionExpression(self, n, env): return Clo(n, env)
    def x_ArrowFunctionExpression(self, n, env): return Clo(n, env, arrow=True)
    def x_ClassExpression(self, n, env): return self.cls(n, env)
    def x_SequenceExpression(self, n, env):
        for e in n['expressions']: v = self.ev(e, env)
        return v
    def x_ParenthesizedExpression(self, n, env): return self.ev(n['expression'], env)
    def x_ConditionalExpression(self, n, env): return self.ev(n['consequent'] if self.truth(self.ev(n['test'], env)) else n['alternate'], env)
    def x_LogicalExpression(self, n, env):
        a = self.ev(n['left'], env); op = n['operator']
        if op == '??': return self.ev(n['right'], env) if self.nullish(a) else a
        t = self.truth(a)
        if op == '||': return a if t else self.ev(n['right'], env)
        return self.ev(n['right'], env) if t else a
    def x_AwaitExpression(self, n, env): return self.ev(n['argument'], env)      # promises are modelled by the value they resolve to
    def x_ChainExpression(self, n, env):
        try: return self.ev(n['expression'], env)
        except Chain: return UNDEF
    def x_MemberExpression(self, n, env): return self.member(n, env)[1]
    def member(self, n, env):
        if n['object']['type'] == 'Super':
            c = self.get(env, '%home'); s = c.sup
            return self.get(env, 'this'), self.prop(s.proto, n['property']['name'])
        o = self.ev(n['object'], env)
        if n.get('optional') and self.nullish(o): raise Chain()
        k = self.pkey(self.ev(n['property'], env)) if n['computed'] else n['property']['name']
        return o, self.prop(o, k)
    def x_CallExpression(self, n, env):
        c = n['callee']
        if c['type'] == 'Super': return self.call(self.get(env, '%super'), self.args(n['arguments'], env))
        if c['type'] == 'MemberExpression': this, f = self.member(c, env)
        else: this, f = UNDEF, self.ev(c, env)
        if n.get('optional') and self.nullish(f): raise Chain()
        return self.call(f, self.args(n['arguments'], env), this)
    def x_NewExpression(self, n, env): return self.construct(self.ev(n['callee'], env), self.args(n['arguments'], env))
    def x_AssignmentExpression(self, n, env):
        op = n['operator']
        if op == '=':
            v = self.ev(n['right'], env)
            if n['left']['type'] in ('ObjectPattern', 'ArrayPattern'): raise Unsupported('destructuring assignment')
        else:
            a = self.ev(n['left'], env)
            if op == '??=':
                if not self.nullish(a): return a
                v = self.ev(n['right'], env)
            elif op == '||=':
                if self.truth(a): return a
                v = self.ev(n['right'], env)
            elif op == '&&=':
                if not self.truth(a): return a
                v = self.ev(n['right'], env)
            else: v = self.binop(op[:-1], a, self.ev(n['right'], env))
        self.assign(n['left'], v, env); return v
    def x_UpdateExpression(self, n, env):
        a = self.ev(n['argument'], env); b = self.binop('+' if n['operator'] == '++' else '-', a, 1)
        self.assign(n['argument'], b, env); return b if n['prefix'] else a
    def x_UnaryExpression(self, n, env):
        op = n['operator']
        if op == 'typeof' and n['argument']['type'] == 'Identifier' and env.find(n['argument']['name']) is None: return 'undefined'
        if op == 'delete':
            m = n['argument']; o = self.ev(m['object'], env); k = self.pkey(self.ev(m['property'], env)) if m['computed'] else m['property']['name']
            if not isinstance(o, Obj): raise Unsupported('delete')
            o.p.pop(k, None); return True
        v = self.ev(n['argument'], env)
        if op == '!':
            if isinstance(v, SyB): return SyB(z3.Not(v.c))
            if isinstance(v, Acct): return SyB(v.kind == 0)
            return not self.truth(v)
        if op == 'void': return UNDEF
        if op == '-' and isinstance(v, int): return -v
        if op == '+' and isinstance(v, int): return v
        if op == 'typeof':
            if isinstance(v, Acct): v = self.split(v)
            if isinstance(v, Sy):
                if v.k == 'pk': return 'string'
                return ('number', 'bigint')[self.x.pick([z3.Int(f'repr_{v.t}') == 0, z3.Int(f'repr_{v.t}') != 0])]
            return 'undefined' if v is UNDEF else 'boolean' if isinstance(v, (bool, SyB)) else 'number' if isinstance(v, int) else 'string' if isinstance(v, str) else 'function' if isinstance(v, (Clo, Nat, Cls)) else 'object'
        raise Unsupported(f'operator {op}')
    def x_BinaryExpression(self, n, env):
        return self.binop(n['operator'], self.ev(n['left'], env), self.ev(n['right'], env))
    def binop(self, op, a, b):
        if op == 'in':
            if isinstance(b, Acct): b = self.split(b)
            if isinstance(b, Obj): return self.pkey(a) in b.p
            raise Unsupported('in')
        if op == 'instanceof':
            if isinstance(a, Obj) and isinstance(b, Cls):
                c = a.cls
                while isinstance(c, Cls):
                    if c is b: return True
                    c = c.sup
                return False
            raise Unsupported('instanceof')
        if op in ('===', '!==', '==', '!='):
            r = self.equal(a, b, len(op) == 3)
            if op[0] == '!': r = SyB(z3.Not(r.c)) if isinstance(r, SyB) else not r
            return r
        if isinstance(a, Acct): a = self.split(a)
        if isinstance(b, Acct): b = self.split(b)
        if isinstance(a, str) and isinstance(b, (str, int)) and op == '+' or isinstance(b, str) and isinstance(a, (str, int)) and op == '+': return str(a) + str(b)
        num = lambda v: v.t if isinstance(v, Sy) and v.k == 'int' else int(v) if isinstance(v, (bool, int)) else None
        x, y = num(a), num(b)
        if x is None or y is None: raise Unsupported(f'{op} on these values')
        if op in ('<', '>', '<=', '>='):
            r = {'<': lambda: x < y, '>': lambda: x > y, '<=': lambda: x <= y, '>=': lambda: x >= y}[op]()
            return r if isinstance(r, bool) else SyB(r)
        if op in ('+', '-', '*'):
            r = {'+': lambda: x + y, '-': lambda: x - y, '*': lambda: x * y}[op]()
            return r if isinstance(r, int) else Sy(r, 'int')
        if op == '%' and isinstance(x, int) and isinstance(y, int) and y > 0 and x >= 0: return x % y
        raise Unsupported(f'operator {op}')
    def equal(self, a, b, strict):
        nul = lambda v: v is None or v is UNDEF
        for x, y in ((a, b), (b, a)):
            if isinstance(x, Acct) and nul(y):
                if strict and y is None: return False
                return SyB(x.kind == 0)
        if isinstance(a, Acct): a = self.split(a)
        if isinstance(b, Acct): b = self.split(b)
        if nul(a) or nul(b): return (a is b) if strict else (nul(a) and nul(b))
        if isinstance(a, SyB) or isinstance(b, SyB):
            f = lambda v: v.c if isinstance(v, SyB) else z3.BoolVal(v) if isinstance(v, bool) else None
            if f(a) is None or f(b) is None: return False
            return SyB(f(a) == f(b))
        if isinstance(a, Sy) or isinstance(b, Sy):
            g = lambda v: v.t if isinstance(v, Sy) else (key(v) if isinstance(v, str) else v if isinstance(v, int) else None)
            x, y = g(a), g(b)
            if x is None or y is None: return False
            r = x == y
            return SyB(r) if isinstance(r, z3.ExprRef) else r
        if isinstance(a, (bool, int, str)) and isinstance(b, (bool, int, str)): return type(a) == type(b) and a == b
        return a is b

class Chain(Exception): pass
def names(p):
    t = p['type']
    if t == 'Identifier': yield p['name']
    elif t == 'AssignmentPattern': yield from names(p['left'])
    elif t == 'RestElement': yield from names(p['argument'])
    elif t == 'ObjectPattern':
        for q in p['properties']: yield from names(q['argument'] if q['type'] == 'RestElement' else q['value'])
    elif t == 'ArrayPattern':
        for q in p['elements']:
            if q: yield from names(q)
def declared(d):
    if d['type'] in ('FunctionDeclaration', 'ClassDeclaration'): return [d['id']['name']]
    return [n for x in d['declarations'] for n in names(x['id'])]

B58 = '123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz'
def key(s):
    """number of a base58 key in the engine's representation (little-endian bytes); None if it is not 32 bytes"""
    n = 0
    for c in s:
        if c not in B58: return None
        n = n * 58 + B58.index(c)
    z = len(s) - len(s.lstrip('1'))
    b = n.to_bytes((n.bit_length() + 7) // 8, 'big'); b = bytes(z) + b
    return int.from_bytes(b, 'little') if len(b) == 32 else None
def b58(v):
    b = v.to_bytes(32, 'little'); n = int.from_bytes(b, 'big'); s = ''
    while n: n, r = divmod(n, 58); s = B58[r] + s
    return '1' * (len(b) - len(b.lstrip(b'\0'))) + s

def a_sort(js, o, a):
    import functools
    if not a: raise Unsupported('sort without comparison')
    def cmp(x, y):
        r = js.call(a[0], [x, y])
        if isinstance(r, Sy): raise Unsupported('symbolic order')
        return r
    o.a.sort(key=functools.cmp_to_key(cmp)); return o
def a_reduce(js, o, a):
    xs = list(o.a)
    if len(a) > 1: acc = a[1]; i = 0
    else: acc = xs[0]; i = 1
    for j in range(i, len(xs)): acc = js.call(a[0], [acc, xs[j], j, o])
    return acc
def a_find(js, o, a):
    for i, x in enumerate(o.a):
        if js.truth(js.call(a[0], [x, i, o])): return i
    return -1
def each(js, o, a):
    for i, x in enumerate(list(o.a)): js.call(a[0], [x, i, o])
    return UNDEF
def push(js, o, a): o.a += a; return len(o.a)
def flat(js, xs):
    r = []
    for x in xs: r += x.a if isinstance(x, Arr) else [x]
    return r
def a_slice(js, o, a):
    i = a[0] if a else 0; j = a[1] if len(a) > 1 and a[1] is not UNDEF else len(o.a)
    return Arr(o.a[i:j])
ARRAY = {
    'map': lambda js, o, a: Arr([js.call(a[0], [x, i, o]) for i, x in enumerate(list(o.a))]), 'forEach': each, 'push': push, 'sort': a_sort, 'reduce': a_reduce,
    'filter': lambda js, o, a: Arr([x for i, x in enumerate(list(o.a)) if js.truth(js.call(a[0], [x, i, o]))]),
    'find': lambda js, o, a: (lambda i: UNDEF if i < 0 else o.a[i])(a_find(js, o, a)), 'findIndex': a_find, 'slice': a_slice,
    'concat': lambda js, o, a: Arr(o.a + flat(js, a)), 'some': lambda js, o, a: a_find(js, o, a) >= 0,
    'every': lambda js, o, a: all(js.truth(js.call(a[0], [x, i, o])) for i, x in enumerate(list(o.a))), 'pop': lambda js, o, a: o.a.pop() if o.a else UNDEF,
    'reverse': lambda js, o, a: (o.a.reverse(), o)[1], 'flatMap': lambda js, o, a: Arr(flat(js, [js.call(a[0], [x, i, o]) for i, x in enumerate(list(o.a))])),
    'entries': lambda js, o, a: Arr([Arr([i, x]) for i, x in enumerate(o.a)]), 'includes': lambda js, o, a: any(js.truth(js.equal(x, a[0], True)) for x in o.a),
    'unshift': lambda js, o, a: (o.a.__setitem__(slice(0, 0), a), len(o.a))[1], 'shift': lambda js, o, a: o.a.pop(0) if o.a else UNDEF,
    'join': lambda js, o, a: joined(o, a), 'at': lambda js, o, a: o.a[a[0]] if -len(o.a) <= a[0] < len(o.a) else UNDEF,
}
def joined(o, a):
    if not all(isinstance(x, (str, int)) for x in o.a): raise Unsupported('join')
    return (a[0] if a else ',').join(str(x) for x in o.a)
def mkey(k):
    if isinstance(k, (str, int)): return k
    raise Unsupported('map key')
def m_get(js, o, a):
    if isinstance(a[0], Sy):
        ks = [k for k in o.d if isinstance(k, int)]
        i = js.x.pick([a[0].t == k for k in ks] + [z3.And([a[0].t != k for k in ks])])
        return o.d[ks[i]] if i < len(ks) else UNDEF
    return o.d.get(mkey(a[0]), UNDEF)
MAP = {'get': m_get, 'set': lambda js, o, a: (o.d.__setitem__(mkey(a[0]), a[1]), o)[1], 'has': lambda js, o, a: m_get(js, o, a) is not UNDEF,
    'keys': lambda js, o, a: Arr(o.d.keys()), 'values': lambda js, o, a: Arr(o.d.values()), 'entries': lambda js, o, a: Arr([Arr([k, v]) for k, v in o.d.items()])}
STRING = {'toString': lambda js, o, a: o, 'startsWith': lambda js, o, a: o.startswith(a[0])}
