"""Bounded native runs for the wire format: the constructors, the generated client and the decoder of the real code against the tables."""
import json, random
import spec, conc, search, build
from spec import *
from client import ANAMES, fname

def rkey(g): return g.randbytes(32)
def rargs(g, tag):
    A = {}
    for x, n in ARGS[tag]:
        if x == 'has_date': continue
        A[x] = rkey(g) if n == 32 else g.randrange(5) if n == 1 else g.choice([0, 1, 2**64 - 1, g.randrange(2**64), g.randrange(2**32)])
    if tag == SLASH: A['date'] = g.choice([None, g.randrange(2**64), 0])
    return A
def js_args(A): return {x: v.hex() if isinstance(v, bytes) else None if v is None else str(v) for x, v in A.items()}
def data(tag, A):
    A = dict(A)
    if tag == SLASH: A['has_date'] = int(A['date'] is not None)
    return conc.encode(tag, A).hex()
def check(tag, r, prog, keys, A, sigs=True):
    """keys: by position"""
    if r.get('result') == 'panic': return 'panic'
    if r['program'] != prog: return 'not addressed to the program'
    if r['data'] != data(tag, A): return 'bytes differ from the published format'
    ms = r['metas']
    if len(ms) < NSLOTS[tag]: return 'accounts missing'
    pos = {i: x for x, i in ROLES[tag].items()}
    for i in range(NSLOTS[tag]):
        k, s, w = ms[i]
        if k != keys[i].hex(): return f'account {i} is not the one given'
        if pos.get(i) in SIGNERS[tag] and not s: return f'account {i} does not sign'
        if pos.get(i) in WRITTEN[tag] and not w: return f'account {i} is not writable'
def k2b(i): return i.to_bytes(32, 'little')

def n23(exe, seed, tier, failed, effect=True):
    g = random.Random(seed); n = conc.Native(exe); runs = 0
    try:
        for tag in range(12):
            for _ in range(30 if tier == 'quick' else 400):
                A = rargs(g, tag); keys = {'program': rkey(g)}
                for p in PARAMS[tag]:
                    if p[0] == '@': keys[p[1:]] = rkey(g)
                c = dict(fn='ctor', name=NAMES[tag], keys={x: v.hex() for x, v in keys.items()}, args=js_args(A))
                r = n.run([c])[0]; runs += 1
                pos = {i: x for x, i in ROLES[tag].items()}
                bad = check(tag, r, keys['program'].hex(), [k2b(CONSTS.get(tag, {})[i]) if i in CONSTS.get(tag, {}) else keys[pos[i]] for i in range(NSLOTS[tag])], A)
                if bad: return dict(kind='constructor', input=c, answer=r, violated=[bad]), dict(runs=runs)
        # what the decoder must refuse: unknown codes, truncated and trailing bytes, on accounts with which the instruction succeeds
        G = conc.Gen(seed)
        for tag in range(12):
            good = []
            for _ in range(40):
                cs = [G.case(tag, 'normal') for _ in range(20)]
                good += [c for c, r in zip(cs, n.run([conc.js_case(c) for c in cs])) if r['result'] == 'ok']
                runs += len(cs)
                if len(good) >= 3: break
            for c in good[:3]:
                ix = c['ix']; vs = [ix + b'\0', ix + b'\1', ix + ix, ix + bytes(8), b'', bytes([g.randrange(12, 256)]) + ix[1:]] + [ix[:m] for m in range(len(ix))]
                vs = [v for v in vs if not (tag == SLASH and len(v) - 1 in (49, 57) and v[:1] == ix[:1])]
                for v, r in zip(vs, n.run([conc.js_case(dict(c, ix=v)) for v in vs])):
                    runs += 1
                    if r['result'] == 'ok': return dict(kind='entry', input=conc.js_case(dict(c, ix=v)), answer=r, violated=['malformed instruction bytes are refused']), dict(runs=runs)
    finally: n.close()
    if not effect: return None, dict(runs=runs)
    found, st = search.search(exe, 'C23', list(range(12)), 60, seed)
    st['runs_wire'] = runs
    if found:
        c, r, bad = found
        return dict(kind='entry', violated=bad, case=search.plain(c), input=conc.js_case(c), answer=r), st
    return None, st

def n24(exe, seed, tier, failed):
    exe = build.replay(True)
    g = random.Random(seed); n = conc.Native(exe); runs = 0
    prog = n.run([dict(fn='id')])[0]['id']
    try:
        for tag in range(12):
            for _ in range(25 if tier == 'quick' else 300):
                for way in ('instruction', 'builder', 'cpi', 'cpi builder'):
                    A = rargs(g, tag); keys = {x: rkey(g) for x in ANAMES[tag] + ['program']}
                    consts = tag not in CONSTS or way != 'builder' or g.random() < .5
                    c = dict(fn='client', way=way, name=NAMES[tag], keys={x: v.hex() for x, v in keys.items()}, args=js_args(A), consts=consts)
                    r = n.run([c])[0]; runs += 1
                    want = [k2b(CONSTS[tag][i]) if not consts and i in CONSTS[tag] else keys[x] for i, x in enumerate(ANAMES[tag])]
                    bad = check(tag, r, prog, want, A)
                    if not bad and len(r['metas']) != NSLOTS[tag]: bad = 'wrong number of accounts'
                    if not bad and 'calls' in r and r['calls'] != 1: bad = 'not one call'
                    if not bad and 'infos' in r and not {x.hex() for x in keys.values()} <= set(r['infos']): bad = 'an account is not handed to the call'
                    if bad: return dict(kind='client', input=c, answer=r, violated=[bad]), dict(runs=runs)
    finally: n.close()
    # the program's side of the format
    f, st = n23(build.replay(), seed, tier, failed, False)
    return f, dict(runs=runs, program_side=st)
