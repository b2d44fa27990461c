"""running contracts in processes of their own"""
import multiprocessing as mp
import os
import time

HERE = os.path.dirname(os.path.abspath(__file__))


def summarize(res):
    """what another process needs to know of a verification run"""
    obls = {}
    for o in res.obls:
        d = obls.setdefault(o.name, dict(name=o.name, proved=0, refuted=0, unknown=0, seconds=0.0, backends=[],
                                         refuted_exactly=0, model=None))
        d[o.status] += 1
        d['seconds'] = round(d['seconds'] + o.seconds, 3)
        if o.backend not in d['backends']:
            d['backends'].append(o.backend)
        if o.status == 'refuted':
            if not o.havoc:
                d['refuted_exactly'] += 1
            if d['model'] is None or not o.havoc:
                d['model'] = o.model
    loops = []
    for key, info in res.loops:
        loops.append(dict(line=key[1], where=key[3], iterations_checked=info.iterated, invariants=len(info.kept)))
    return dict(contract=res.contract.name, functions=res.contract.functions, inlined=sorted(res.inlined),
                obligations=list(obls.values()), error=res.error, complete_paths=res.complete,
                paths=res.stats.get('paths', 0), restarts=res.stats.get('restarts', 0),
                solver_checks=res.stats.get('checks', 0), solver_s=round(res.stats.get('solver_s', 0), 2),
                seconds=round(res.seconds, 2), loops=loops, bounded=res.bounded)


def verify_one(module, index, unroll, deadline, q):
    try:
        import importlib
        m = importlib.import_module(module)
        from contracts.base import explore
        r = summarize(explore(m.CONTRACTS[index], unroll=unroll, deadline=deadline))
    except BaseException as e:
        import traceback
        r = dict(contract=str(index), functions=[], inlined=[], obligations=[], complete_paths=0, paths=0, restarts=0,
                 solver_checks=0, solver_s=0, seconds=0, loops=[], bounded=False,
                 error=f'internal: {type(e).__name__}: {e}\n{traceback.format_exc(limit=-4)}')
    q.put((module, index, unroll, r))


def run_jobs(jobs, limit, workers):
    """jobs: (module, index, unroll, deadline); results by job key"""
    ctx = mp.get_context('fork')
    q = ctx.Queue()
    pending, running, results, again = list(jobs), {}, {}, set()
    t0 = time.time()
    while pending or running:
        while pending and len(running) < workers:
            j = pending.pop(0)
            p = ctx.Process(target=verify_one, args=(*j, q), daemon=True)
            p.start()
            running[j[:3]] = (p, time.time(), j[3])
        try:
            m, i, u, r = q.get(timeout=0.2)
            results[m, i, u] = r
            p = running.pop((m, i, u), None)
            if p:
                p[0].join(5)
        except Exception:
            pass
        now = time.time()
        for k, (p, started, dl) in list(running.items()):
            if not p.is_alive() and q.empty() and k not in results:
                time.sleep(0.2)
                if not q.empty():
                    continue
                running.pop(k)
                results[k] = lost(k, 'the verifier process died')
            elif now - started > dl + 45 or now - t0 > limit:
                p.kill()
                running.pop(k)
                left = limit - (now - t0) - 50
                if k not in again and left > 100:
                    # hung, most likely
                    again.add(k)
                    pending.insert(0, (*k, min(dl, left)))
                else:
                    results[k] = lost(k, 'out of time')
        if now - t0 > limit:
            for j in pending:
                results[j[:3]] = lost(j[:3], 'out of time')
            pending = []
    return results


def lost(k, why):
    return dict(contract=f'{k[0]}#{k[1]}', functions=[], inlined=[], obligations=[], complete_paths=0, paths=0,
                restarts=0, solver_checks=0, solver_s=0, seconds=0, loops=[], bounded=False, error=why)


def proved(r):
    """every obligation discharged, and not vacuously"""
    return not r['error'] and r['complete_paths'] > 0 and r['obligations'] and \
        all(not o['refuted'] and not o['unknown'] for o in r['obligations'])


def contract_modules(prop):
    """the modules whose contracts decide the property"""
    base = prop.lower()
    names = [f[:-3] for f in sorted(os.listdir(os.path.join(HERE, 'contracts')))
             if f.endswith('.py') and (f[:-3] == base or f.startswith(base + '_'))]
    return ['contracts.' + n for n in names]
