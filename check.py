#!/usr/bin/env python3-vt
"""check.py <property> [--tier quick|thorough]: verify the contracts of one property against /repo."""
import os, sys, re, json, time, subprocess, resource, traceback, multiprocessing as mp, signal
ROOT = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, ROOT + '/engine'); sys.path.insert(0, ROOT)
from build import Build, BuildError, REPO
import groups

T0 = time.time()
TIER = os.environ.get('VERIF_TIER', 'quick'); SEED = int(os.environ.get('VERIF_SEED', '1'))
BUDGET = 560 if TIER == 'quick' else 760

def worker(job, conn):
    name, lls, limits = job
    out = dict(name=name, status='proved')
    try:
        resource.setrlimit(resource.RLIMIT_AS, (7 << 30, 7 << 30))
        from core import Engine, Unsupported
        from ir import Module
        E = Engine(MODS, dict(limits))
        if TIER == 'thorough': E.dump = []
        def fill(E):
            out.update(named=dict(E.named), covered=sorted(E.covered), paths=E.paths, steps=E.total_steps, vc=dict(E.vc), queries=E.nq,
                       solver_time=round(E.solver_time, 3), funcs=sorted(E.funcs_seen), ext=sorted(E.ext_seen), impl=len(E.impl),
                       invs=E.invs[:20], states=getattr(E, 'ncut', 0), closed=getattr(E, 'closed', 0), widened=getattr(E, 'nwiden', 0))
        try: E.run_harness(name)
        except Unsupported as e: out['status'] = 'undecided'; out['why'] = '%s [%s]' % (e, getattr(e, 'where', '')[:600])
        fill(E)
        if E.refuted:
            exact = [r for r in E.refuted if not r['widened']]
            if not exact:
                # refuted only from a generalised state: look for a concrete violation by unrolling
                E2 = Engine(MODS, dict(limits, unroll=7, time=120))
                try: E2.run_harness(name)
                except Unsupported as e: pass
                exact = [r for r in E2.refuted if not r['widened']]
            if exact: out['status'] = 'refuted'; out['refuted'] = exact
            else: out['status'] = 'undecided'; out['why'] = 'the inferred invariant does not establish %s (%s)' % (E.refuted[0]['name'], E.refuted[0]['detail'])
        elif out['status'] == 'proved' and not E.covered: out['status'] = 'undecided'; out['why'] = 'no cover point reached (vacuous)'
        if E.dump: out['dump'] = E.dump[:400]
    except MemoryError: out['status'] = 'undecided'; out['why'] = 'out of memory'
    except Exception as e: out['status'] = 'undecided'; out['why'] = 'verifier: ' + traceback.format_exc()[-1500:]
    conn.send(out); conn.close()

def run_all(jobs, budget):
    """run the harnesses in parallel worker processes with a deadline"""
    res = []; run = []; jobs = list(jobs); end = time.time() + budget
    while jobs or run:
        while jobs and len(run) < 8:
            j = jobs.pop(0); a, b = mp.Pipe(False)
            j = (j[0], j[1], dict(j[2], time=max(10, end - time.time() - 5)))
            p = mp.Process(target=worker, args=(j, b)); p.start(); b.close(); run.append((p, a, j))
        time.sleep(0.02)
        for x in list(run):
            p, a, j = x
            if a.poll():
                try: res.append(a.recv())
                except EOFError: res.append(dict(name=j[0], status='undecided', why='verifier process died'))
                p.join(); run.remove(x)
            elif not p.is_alive(): res.append(dict(name=j[0], status='undecided', why='verifier process died')); run.remove(x)
            elif time.time() > end:
                p.kill(); p.join(); res.append(dict(name=j[0], status='undecided', why='time budget')); run.remove(x)
    return res

class Native:
    def __init__(self, b, sources): self.b = b; self.sources = sources; self.exe = None; self.err = None
    def get(self):
        if self.exe is None and self.err is None:
            try: self.exe = self.b.native(self.sources)
            except BuildError as e: self.err = str(e)
        return self.exe
    def call(self, args, timeout):
        if not self.get(): return None
        env = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:abort_on_error=0:allocator_may_return_null=1:detect_stack_use_after_return=1')
        try: r = subprocess.run([self.exe] + [str(a) for a in args], capture_output=True, text=True, timeout=timeout, env=env)
        except subprocess.TimeoutExpired: return None
        return r.stdout if r.returncode in (0, 1) else None

def demangle(names):
    try:
        r = subprocess.run(['/usr/lib/llvm-18/bin/llvm-cxxfilt'], input='\n'.join(n.lstrip('@').strip('"') for n in names), capture_output=True, text=True)
        return r.stdout.splitlines()
    except OSError: return list(names)

def main():
    global TIER, MODS
    args = [a for a in sys.argv[1:] if not a.startswith('--')]
    if '--tier' in sys.argv: TIER = args[1]
    pid = args[0]
    b = Build()
    try: return check(pid, b)
    finally: b.close()

def check(pid, b):
    global MODS
    grp = groups.PROPS[pid]
    res = []; natives = []; notes = []; violations = []
    known = [k for k in groups.known() if k['property'] == pid]
    jobs = []; byname = {}
    units = []
    from ir import Module
    builderrs = []
    for g in grp['groups']:
        G = groups.GROUPS[g]
        src = G['contracts'] + G.get('models', []) + G.get('repo', [])
        sym = True
        try: lls = b.ir(src)
        except BuildError as e:
            try: lls = b.ir(src, symonly=False); notes.append('symbolic-only contracts left out: %s' % e)
            except BuildError as e2: builderrs.append(str(e2)); continue
        units.append((g, G, src, lls))
    if builderrs:
        print('ERROR the contracts do not compile against this tree:', '; '.join(builderrs)[:3000]); return 2
    for g, G, src, lls in units:
        mods = [Module(p) for p in lls]
        nat = Native(b, src)
        names = sorted(set(m.group(1) for p in lls[:len(G['contracts'])] for m in re.finditer(r'^define[^@\n]*@(vqh_%s_\w+)\(' % pid, open(p).read(), re.M)))
        if not names: continue
        MODS = mods
        names.sort(key=lambda n: -groups.COST.get(n, 1))
        budget = max(30, (BUDGET - (time.time() - T0)) * (1.0 if len(units) == 1 else 0.6))
        for r in run_all([(n, lls, groups.LIMITS.get(n, {})) for n in names], budget):
            r['nat'] = nat; res.append(r)
    evals = 0; bounded = []
    finding = []
    for r in sorted(res, key=lambda r: r['name']):
        nat = r['nat']
        if r['status'] == 'refuted':
            rf = r['refuted'][0]; shown = None
            for cand in r['refuted']:
                o = nat.call(['replay', r['name']] + [t[2] for t in cand['trace']], 60)
                if o and o.startswith('FAIL'): rf = cand; shown = o; break
            if not shown:
                o = nat.call(['explore', r['name'], 20, SEED], 60)
                if o and o.startswith('FAIL'): shown = o
            if not shown:   # the contract may be a symbolic one: look for an input with the other contracts of the property
                for q in res:
                    if q is r or q['nat'] is not nat: continue
                    o = nat.call(['explore', q['name'], 6, SEED], 30)
                    if o and o.startswith('FAIL'): shown = o; break
            violations.append((r, rf, shown))
        elif r['status'] == 'undecided':
            o = nat.call(['explore', r['name'], groups.EXPLORE.get(r['name'], 20), SEED], 120)
            if o and o.startswith('FAIL'): violations.append((r, dict(name='bounded exploration', detail=r.get('why'), where='', trace=[]), o))
            else:
                m = re.search(r'RUNS (\d+) PRUNED (\d+)', o or ''); n = int(m.group(1)) if m else 0; evals += n
                bounded.append(dict(contract=r['name'], reason=r.get('why'), native_runs=n, exhausted='EXHAUSTED 1' in (o or ''), native_error=nat.err))
        elif TIER == 'thorough' and time.time() - T0 < 860:
            o = nat.call(['explore', r['name'], 5, SEED], 60)
            m = re.search(r'RUNS (\d+)', o or ''); evals += int(m.group(1)) if m else 0
            if o and o.startswith('FAIL'): violations.append((r, dict(name='native cross-check', detail='', where='', trace=[]), o))
    cross = crosscheck(res) if TIER == 'thorough' else None
    os.makedirs(ROOT + '/evidence/replay', exist_ok=True)
    rc = 0; nviol = 0
    for r, rf, shown in violations:
        what = shown.splitlines()[0] if shown else '%s: %s' % (rf['name'], rf['detail'])
        k = next((k for k in known if k['contract'] == r['name'] and re.search(k['match'], '%s %s %s' % (rf['name'], rf['detail'], what))), None)
        if k: print('KNOWN-FINDING: property=%s %s' % (pid, k['what'])); continue
        nviol += 1
        path = '%s/evidence/replay/%s-%d.json' % (ROOT, pid, nviol)
        rep = dict(property=pid, contract=r['name'], obligation=rf['name'], detail=rf['detail'], where=demangle(re.split(r' < ', rf.get('where', '')))[:8],
                   inputs=rf['trace'], native=shown, how='VQ: tools/replay.py %s' % path, seed=SEED)
        json.dump(rep, open(path, 'w'), indent=1)
        print('# %s: obligation %s refuted (%s)%s' % (r['name'], rf['name'], rf['detail'], '; native: ' + shown.strip().replace('\n', ' | ')[:500] if shown else ''))
        if not rc: print('VIOLATION property=%s replay=%s%s' % (pid, path, '' if shown else ' no-failing-input-found'))
        rc = 1
    # evidence
    named = sum(sum(r.get('named', {}).values()) for r in res); impl = sum(r.get('impl', 0) for r in res); closed = sum(r.get('closed', 0) for r in res)
    und = [r for r in res if r['status'] != 'proved']
    funcs = sorted(set(f for r in res for f in r.get('funcs', [])))
    exts = sorted(set(f for r in res for f in r.get('ext', [])))
    dm = demangle(funcs); repo_funcs = [d for d in dm if re.search(r'QCoro', d) and not d.startswith('std::') and 'vqh_' not in d]
    modelfn = set()
    for g, G, src, lls in units:
        for s, l in zip(src, lls):
            if s.startswith('model/'):
                for m in re.finditer(r'^define (?!internal|linkonce)[^@\n]*(@(?:"[^"]*"|[\w.$]+))\(', open(l).read(), re.M): modelfn.add(m.group(1))
    used_models = [d for f, d in zip(funcs, dm) if f in modelfn]
    ev = dict(property=pid, tier=TIER, seed=SEED, level=grp.get('level', 'proof'), wall_s=round(time.time() - T0, 1), violations=nviol,
        coverage=dict(
            obligations=named + impl + closed + len(und), discharged=named + impl + closed,
            checker_cmd='python3-vt check.py %s' % pid,
            trusted_base=['clang 18 front end (C++ to LLVM IR, no optimisation passes)', 'engine/*.py: IR semantics and VC generation', 'z3 (satisfiability of the residual conditions)',
                          'Qt behaves as the environment contracts in model/*.cpp say', 'libstdc++ templates are verified as code; runtime functions as in engine/externs.py'],
            contracts=[dict(name=r['name'], status=r['status'], why=r.get('why'), obligations=r.get('named'), covers=r.get('covered'), paths=r.get('paths'), ir_steps=r.get('steps'),
                            invariant_states=r.get('states'), closed_by_invariant=r.get('closed'), generalised=r.get('widened'), invariants=r.get('invs'), queries=r.get('queries'), solver_s=r.get('solver_time')) for r in sorted(res, key=lambda r: r['name'])],
            named_obligation_instances=named, implicit_obligation_sites=impl, states_closed_by_invariant=closed,
            discharged_by_simplification=sum(r.get('vc', {}).get('folded', 0) for r in res), discharged_by_z3=sum(r.get('vc', {}).get('z3', 0) for r in res),
            solver_queries=sum(r.get('queries', 0) for r in res), solver_time_s=round(sum(r.get('solver_time', 0) for r in res), 2),
            repo_functions_verified=repo_funcs[:400], repo_functions_count=len(repo_funcs), library_functions_inlined=len(dm) - len(repo_funcs) - len(used_models),
            environment_contracts_used=used_models, external_primitives_used=demangle(exts),
            bounded=bounded, evaluations=evals, cvc5_crosscheck=cross, notes=notes),
        assumptions=groups.ASSUMPTIONS + grp.get('assumptions', []))
    if not res:
        print('ERROR no contracts for', pid); return 2
    os.makedirs(ROOT + '/evidence', exist_ok=True)
    json.dump(ev, open('%s/evidence/%s.json' % (ROOT, pid), 'w'), indent=1)
    st = {}
    for r in res: st[r['status']] = st.get(r['status'], 0) + 1
    print('%s: %s; %d named obligations, %d implicit sites, %d closed by invariants; %.1f s' % (pid, st, named, impl, closed, time.time() - T0))
    for x in bounded: print('  bounded only: %s (%s) native runs %d' % (x['contract'], x['reason'], x['native_runs']))
    return rc

def crosscheck(res):
    """re-discharge the z3 verdicts with cvc5"""
    q = [d for r in res for d in r.get('dump', []) if d[1] in ('sat', 'unsat')]
    import random
    random.Random(SEED).shuffle(q); q = q[:300]
    agree = dis = unk = 0
    def one(d):
        try: r = subprocess.run(['cvc5', '--lang=smt2', '--tlimit=5000'], input=d[0] + '\n', capture_output=True, text=True, timeout=20)
        except subprocess.TimeoutExpired: return None
        o = r.stdout.strip().splitlines()
        return o[0] if o and o[0] in ('sat', 'unsat') else None
    from concurrent.futures import ThreadPoolExecutor
    with ThreadPoolExecutor(8) as ex: out = list(ex.map(one, q))
    for d, o in zip(q, out):
        if o is None: unk += 1
        elif o == d[1]: agree += 1
        else: dis += 1
    return dict(queries=len(q), agree=agree, disagree=dis, no_answer=unk)

if __name__ == '__main__':
    rc = main()
    sys.stdout.flush()
    os._exit(rc)
