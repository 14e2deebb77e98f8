"""Bounded native search: random and solver-suggested cases run on the real code, judged by the same specifications."""
import collections, json, os, sys, time, multiprocessing as mp
import spec, conc, props

def literals(dump):
    """integer constants of the crate's own code, for the case generator"""
    out = set()
    T = dump['types']
    def walk(x):
        if isinstance(x, dict):
            if 'bytes' in x and 't' in x and not x.get('prov') and T[str(x['t'])]['k'] == 'int' and '?' not in x['bytes']:
                out.add(int.from_bytes(bytes.fromhex(x['bytes']), 'little'))
            for y in x.values(): walk(y)
        elif isinstance(x, list):
            if len(x) == 2 and isinstance(x[0], str) and x[0].isdigit() and isinstance(x[1], int): out.add(int(x[0]))
            for y in x: walk(y)
    for f in dump['fns'].values():
        if 'mplx_rewards' in f['name'] and f['body']: walk(f['body'])
    return sorted(v for v in out if 2 < v < 2**64)

def worker(q, exe, pid, tags, seconds, seed, lits, hints, limit):
    nat = conc.Native(exe); g = conc.Gen(seed, lits, hints)
    t0 = time.time(); n = collections.Counter(); ok = collections.Counter(); judged = collections.Counter(); err = collections.Counter()
    try:
        while time.time() - t0 < seconds and sum(n.values()) < limit:
            for tag in tags:
                cs = []
                for _ in range(40):
                    try: cs.append(g.case(tag))
                    except Exception as e: err[f'generator: {type(e).__name__}: {e}'[:80]] += 1
                if not cs: n[tag] += 1; continue
                rs = nat.run([conc.js_case(c) for c in cs])
                n[tag] += len(cs)
                for c, r in zip(cs, rs):
                    if r['result'] == 'ok': ok[tag] += 1
                    elif pid not in ('C29', 'C30', 'C35'): continue
                    try: bad = conc.judge(pid, c, r, props)
                    except Exception as e: err[f'{type(e).__name__}: {e}'[:80]] += 1; continue
                    if bad is None: continue
                    judged[tag] += 1
                    if bad: q.put(('bad', c, r, bad)); return
    except (BrokenPipeError, json.JSONDecodeError, ValueError) as e: err[f'harness: {e}'[:80]] += 1
    finally:
        q.put(('done', dict(n), dict(ok), dict(judged), dict(err))); nat.close()

def search(exe, pid, tags, seconds, seed, lits=(), hints=(), procs=8, limit=10**9):
    """-> (first failing (case, answer, failed obligations) or None, statistics)"""
    q = mp.Queue(); ps = []
    for i in range(procs):
        p = mp.Process(target=worker, args=(q, exe, pid, list(tags), seconds, seed*1000 + i, lits, hints, limit), daemon=True); p.start(); ps.append(p)
    found = None; st = dict(runs=collections.Counter(), ok=collections.Counter(), judged=collections.Counter(), errors=collections.Counter())
    t0 = time.time(); left = procs
    while left and time.time() - t0 < seconds + 60:
        try: m = q.get(timeout=1)
        except Exception:
            if not any(p.is_alive() for p in ps): break
            continue
        if m[0] == 'bad':
            if found is None: found = m[1:]
            for p in ps:
                if p.is_alive(): p.terminate()
            break
        left -= 1
        for k, d in zip(('runs', 'ok', 'judged', 'errors'), m[1:]): st[k].update(d)
    for p in ps:
        if p.is_alive(): p.terminate()
    return found, {k: {spec.NAMES[t] if isinstance(t, int) else t: v for t, v in d.items()} for k, d in st.items()}

def plain(x):
    if isinstance(x, bytes): return x.hex()
    if isinstance(x, dict): return {str(k): plain(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)): return [plain(v) for v in x]
    return x
