"""check.sh's worker: one property, one tier.  Exit 0 when every obligation generated from /repo's current source is discharged
(or what is outside the verifier's reach showed nothing in a bounded native search), 1 with a VIOLATION line otherwise."""
import json, os, sys, time, traceback, multiprocessing as mp
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(100000)
import build

VERIF = build.VERIF
TRUSTED = ['rustc nightly MIR construction (exported monomorphic MIR, overflow checks as the deployed profile has them)', 'the exporter driver/main.rs and the symbolic executor engine/*.py (obligation generation)', 'z3',
    'models of library primitives (engine/models.py; the ones used are listed under assumed)', 'the ordered-map contract assumed of the sokoban red-black tree']

def tag_job(dumpf, tag, pid, timeout):
    """calls go to the verified contracts of the callees; where that does not prove everything the bodies are followed instead"""
    import contracts
    if contracts.USE:
        r = tag_run(dumpf, tag, pid, timeout, contracts.USE)
        if not r['failed'] and not r['unsupported']: return r
    return tag_run(dumpf, tag, pid, timeout)
def tag_run(dumpf, tag, pid, timeout, use=()):
    import z3, interp, sym, props, spec, values
    r = dict(name=spec.NAMES[tag], tag=tag, obligations=0, discharged=0, failed=[], hints=[], unsupported=None)
    t0 = time.time()
    try:
        w, outs = sym.run_entry(interp.load_dump(dumpf), tag, use=use)
        r['exec_s'] = round(time.time() - t0, 2)
        cs = sym.cases(w, outs, tag)
        r['cases'] = len(cs)
        r['infeasible'] = 0
        D = sym.Discharge(w)
        for i, c in enumerate(cs):
            # vacuity: the path itself must not be contradictory
            if w.ctx.check(c.st.pc, (), 5000) == z3.unsat: r['infeasible'] += 1; continue
            D.prove(c, pid, list(props.obligations(pid, c)), timeout)
        r['obligations'] = D.n + w.ctx.obligations_loop; r['loop_obligations'] = w.ctx.obligations_loop
        r['failed'] = [dict(obligation=n, answer=a, case={k: ('other account' if v else 'the member itself') for k, v in c.others.items()}) for c, n, a in D.failed]
        r['discharged'] = r['obligations'] - len(r['failed'])
        r['hints'] = D.hints
        r['backend'] = D.backend
        r['loops'] = [dict(fn=l['fn'], invariants=len(l['invariants'])) for l in w.loops_done]
        r['functions'] = sorted({w.fns[k]['name'] for k in w.used_fns if own(w.fns[k]['name'])})
        r['inlined_library'] = sum(1 for k in w.used_fns if 'mplx_rewards' not in w.fns[k]['name'])
        r['assumed'] = sorted({m.split(': ')[0] for m in w.used_models})
        r['contracts'] = sorted(w.fns[k]['name'] for k in w.used_summaries)
        r['queries'] = w.ctx.nq; r['solver_s'] = round(w.ctx.tq + D.t, 2)
    except values.Unsupported as e: r['unsupported'] = str(e)[:400]
    except Exception as e: r['unsupported'] = f'internal: {type(e).__name__}: {e}'[:400]; r['trace'] = traceback.format_exc()[-1500:]
    r['wall_s'] = round(time.time() - t0, 2)
    return r

def total_lemmas(u):
    import total
    total.lemmas(u)
def own(n):
    """functions of the crate itself (not library glue instantiated with its types)"""
    return n.startswith(('mplx_rewards::', 'rewards::', '<rewards::')) or n.startswith('<') and 'mplx_rewards' in n and not n.startswith(('<std::', '<core::', '<&'))
def _child(q, i, fn, args):
    try: q.put((i, fn(*args)))
    except BaseException as e: q.put((i, dict(name=str(args[1:2]), unsupported=f'internal: {e}'[:300], obligations=0, discharged=0, failed=[], hints=[])))

def pool(jobs, procs=8, limit=600):
    """jobs: list of (fn, args, name); each in its own process with a time limit"""
    res = [None]*len(jobs); q = mp.Queue(); todo = list(range(len(jobs))); act = {}
    while todo or act:
        while todo and len(act) < procs:
            i = todo.pop(0); p = mp.Process(target=_child, args=(q, i) + tuple(jobs[i][:2]), daemon=False); p.start(); act[i] = (p, time.time())
        try:
            i, r = q.get(timeout=.5); res[i] = r; act.pop(i)[0].join(5)
        except Exception: pass
        for i, (p, t) in list(act.items()):
            if time.time() - t > limit or not p.is_alive() and q.empty():
                if p.is_alive(): p.kill()
                try:
                    while True:
                        j, r = q.get(timeout=.3); res[j] = r; act.pop(j, None)
                except Exception: pass
                if i in act:
                    act.pop(i); res[i] = dict(name=jobs[i][2], unsupported='time or memory limit', obligations=0, discharged=0, failed=[], hints=[])
                    if len(jobs[i][1]) > 1 and isinstance(jobs[i][1][1], int): res[i]['tag'] = jobs[i][1][1]
    return res

def known(pid):
    out = []
    for l in open(os.path.join(VERIF, 'known-findings.txt')):
        if l.startswith('known:') and f'property={pid} ' in l: out.append(l.split(f'property={pid} ', 1)[1].strip())
    return out

def main(pid, tier):
    t0 = time.time(); seed = int(os.environ.get('VERIF_SEED') or 1)
    import props
    import extra
    ev = os.path.join(VERIF, 'evidence'); os.makedirs(ev, exist_ok=True)
    rp = os.path.join(build.BUILD, 'replays'); os.makedirs(rp, exist_ok=True)
    try: dumpf = build.dump()
    except build.BuildError as e: print(e, file=sys.stderr); print(f'{pid}: no verdict, /repo does not build'); return 2
    t_build = time.time() - t0
    tags = props.TAGS.get(pid, [])
    jobs = [(tag_job, (dumpf, t, pid, 10000 if tier == 'quick' else 60000), f'entry {t}') for t in sorted(tags, key=lambda t: -ORDER[t])]
    import contracts
    cres = []
    if tags or pid in ('C23', 'C24', 'C29', 'C30', 'C33', 'C35'): contracts.USE, cres = contracts.establish(dumpf, pool, extra)
    tres = []
    if pid in extra.TOTAL:
        tags = extra.TOTAL[pid]
        tres = pool([(extra.guarded, ('settlement succeeds and ends', contracts.settle_total, dumpf, contracts.USE), 'settlement'), extra.job(dumpf, 'lemmas: range of a settlement', total_lemmas)], limit=200)
        if not any(r['failed'] or r['unsupported'] for r in tres): contracts.TOTAL = ('settle',)
    jobs += extra.jobs(pid, dumpf, tier)
    res = tres + pool(jobs, limit=300 if tres and tier == 'quick' else 600)
    met = {c.name for c in contracts.ALL if c.name in contracts.USE}
    cused = {f for r in res for f in r.get('contracts', [])}
    res += [r for r in cres if r['name'].removeprefix('contract of ') in met]
    failed = [(r, f) for r in res for f in r['failed']]
    unsup = [r for r in res if r['unsupported']]
    # native search: to confirm failed obligations, to stand in (bounded) where the verifier does not reach, and in the thorough tier
    stats = None; found = None; t_search = 0
    ctags = sorted({r['tag'] for r, _ in failed if 'tag' in r} | {r['tag'] for r in unsup if 'tag' in r})
    xfail = [r for r in res if (r['failed'] or r['unsupported']) and 'tag' not in r]
    nat = {}
    if ctags or xfail or tier == 'thorough':
        import search, interp
        try:
            exe = build.replay(); t1 = time.time()
            lits = search.literals(interp.load_dump(dumpf)); hints = [h for r in res for h in r['hints']]
            if ctags or tier == 'thorough' and tags:
                secs = 240 if tier == 'thorough' else (150 if failed else 60)
                found, stats = search.search(exe, pid, ctags or tags, secs, seed, lits, hints)
            if found is None and (xfail or tier == 'thorough'):
                if xfail and tags and not ctags and not extra.natives(pid):   # no confirmer of its own: the property's instructions, natively
                    found, stats = search.search(exe, pid, tags, 150 if failed else 60, seed, lits, hints)
                for name, fn in extra.natives(pid):
                    if found is not None: break
                    f, nat[name] = fn(exe, seed, tier, [x for r in xfail for x in r['failed']])
                    if f: found = f; break
            t_search = time.time() - t1
        except build.BuildError as e: print(e, file=sys.stderr)
    verdict = 0; lines = []
    path = os.path.join(rp, f'{pid}.json')
    if found is not None or failed:
        rec = dict(property=pid, failed_obligations=[dict(where=r['name'], **f) for r, f in failed][:40])
        if found is not None:
            if isinstance(found, dict): rec.update(found)
            else:
                c, r, bad = found
                import conc
                rec.update(kind='entry', violated=bad, case=search.plain(c), input=conc.js_case(c), answer=r)
        json.dump(rec, open(path, 'w'), indent=1)
        kf = [k for k in known(pid) if extra.matches(k, rec)]
        if kf: lines += [f'KNOWN-FINDING: property={pid} {k}' for k in kf]
        else:
            verdict = 1
            lines.append(f'VIOLATION property={pid} replay={path}' + ('' if found is not None else ' no-failing-input-found'))
    for k in known(pid):
        if not any(k in l for l in lines): lines.append(f'KNOWN-FINDING: property={pid} {k}')
    obl = sum(r['obligations'] for r in res); dis = sum(r['discharged'] for r in res)
    bk = {}
    for r in res:
        for k, v in r.get('backend', {}).items(): bk[k] = bk.get(k, 0) + v
    fns = sorted({f for r in res for f in r.get('functions', [])} | {'clients/js: ' + f for r in res for f in r.get('js_functions', [])})
    cov = dict(obligations=obl, discharged=dis, checker_cmd=f'bash /verif/check.sh {pid} {tier}', trusted_base=TRUSTED + extra.trusted(pid),
        functions_under_contract=fns, function_count=len(fns), function_contracts=sorted(r['contract_of'] for r in res if r.get('contract_of')), contracts_used_at_call_sites=sorted(cused), contracts_not_met=[dict(contract=r['name'], why=r['unsupported'] or [f['obligation'] for f in r['failed']][:4], instead='callers follow the body') for r in cres if r['name'].removeprefix('contract of ') not in met],
        by_back_end=bk, loop_invariant_obligations=sum(r.get('loop_obligations', 0) for r in res), solver_s=round(sum(r.get('solver_s', 0) for r in res), 2), queries=sum(r.get('queries', 0) for r in res),
        assumed=sorted({f for r in res for f in r.get('assumed', [])}),
        units=[{k: v for k, v in r.items() if k in ('name', 'obligations', 'discharged', 'cases', 'infeasible', 'loops', 'wall_s', 'exec_s', 'unsupported', 'contract_of', 'detail')} for r in res],
        failed=[dict(where=r['name'], **f) for r, f in failed][:40],
        bounded=[dict(unit=r['name'], why=r['unsupported'], stand_in='random native runs of the real code; nothing proved for this unit') for r in unsup],
        native_search=stats, native_extra=nat, build_s=round(t_build, 1), search_s=round(t_search, 1))
    level = 'proof'
    json.dump(dict(property=pid, tier=tier, seed=seed, level=level, coverage=cov, wall_s=round(time.time() - t0, 1), verdict='violated' if verdict else 'held'), open(os.path.join(ev, f'{pid}.json'), 'w'), indent=1)
    print(f'{pid} {tier}: {dis}/{obl} obligations discharged over {len(res)} units, {len(fns)} functions; {len(unsup)} units outside reach; {time.time()-t0:.0f} s')
    for r in unsup: print(f"  bounded only: {r['name']}: {r['unsupported']}")
    for r, f in failed[:12]: print(f"  failed: {r['name']}: {f['obligation']} ({f['answer']})")
    for l in lines: print(l)
    return verdict
ORDER = {0: 0, 1: 0, 2: 0, 3: 10, 4: 12, 5: 3, 6: 17, 7: 1, 8: 2, 9: 27, 10: 5, 11: 3}

if __name__ == '__main__':
    sys.exit(main(sys.argv[1], sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER') or 'quick'))
