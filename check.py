#!/usr/bin/env python3-vt
"""check.py <property> [--tier quick|thorough] : decide one property by symbolic execution + SMT on /repo's current source.
exit 0: held on everything explored; exit 1: violation (replayed natively); exit 2: the machinery could not run."""
import sys, os, re, json, time, tempfile, shutil, subprocess, threading, random, traceback, argparse, signal
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE + '/vx')
import multiprocessing as mp
import build

def parse_entries(bc, tier):
    out = build.sh([build.LLVM + 'llvm-nm', '--defined-only', bc])
    e = re.findall(r' vx_entry_(\w+)$', out, re.M)
    if tier == 'thorough': e += re.findall(r' vx_tentry_(\w+)$', out, re.M)
    return e

def _engine(bc, entry, opts, q):
    try:
        import llvm, engine, stubs, real
        m = llvm.Module(bc)
        E = stubs.setup(engine.Engine(m, opts))
        crash = None; t0 = time.time()
        def onfail(E):
            E.o['time_limit'] = min(E.o['time_limit'], time.time() - t0 + 60)
            q.part(dict(entry=entry, stats=E.stats, labels=E.labels, failures=E.failures, inconclusive=[], ninc=0, assumed=[], fns=sorted(E.fns), stubs=[], crash=None, opts={}))
        E.onfail = onfail
        try: E.run(entry)
        except BaseException as ex:
            crash = ''.join(traceback.format_exception(ex))[-1500:]
        q.put(dict(entry=entry, stats=E.stats, labels=E.labels, failures=E.failures, inconclusive=E.inconclusive[:50], ninc=len(E.inconclusive),
                   assumed=sorted(map(str, E.assumed)), fns=sorted(E.fns), stubs=sorted(getattr(E, 'stubs_used', ())), crash=crash, opts={k: v for k, v in E.o.items()}))
    except BaseException as ex:
        q.put(dict(entry=entry, crash=''.join(traceback.format_exception(ex))[-1500:], stats={}, labels={}, failures=[], inconclusive=[], ninc=0, assumed=[], fns=[], stubs=[], opts={}))

def worker(bc, entry, opts, path):
    import pickle
    threading.stack_size(512 * 1024 * 1024)
    class Q:
        def put(self, x):
            with open(path + '.tmp', 'wb') as f: pickle.dump(x, f)
            os.rename(path + '.tmp', path)
        def part(self, x):
            with open(path + '.tmp', 'wb') as f: pickle.dump(x, f)
            os.rename(path + '.tmp', path + '.part')
    t = threading.Thread(target=_engine, args=(bc, entry, opts, Q())); t.start(); t.join()

def pool(jobs, n, deadline):
    """jobs: [(bc, entry, opts, outpath, limit)] -> run in separate processes, each under its own time limit"""
    import pickle
    jobs = list(jobs); running = []; res = {}
    ctx = mp.get_context('fork')
    while jobs or running:
        while jobs and len(running) < n:
            j = jobs.pop(0)
            p = ctx.Process(target=worker, args=j[:4]); p.start(); running.append((p, j, time.time()))
        time.sleep(0.02)
        for r in list(running):
            p, j, t0 = r
            over = time.time() - t0 > j[4] or time.time() > deadline
            if not over and os.path.exists(j[3] + '.part') and time.time() - os.path.getmtime(j[3] + '.part') > 60: over = True
            if p.is_alive() and over: p.kill(); p.join()
            if not p.is_alive():
                p.join(); running.remove(r)
                if os.path.exists(j[3]):
                    with open(j[3], 'rb') as f: d = pickle.load(f)
                elif os.path.exists(j[3] + '.part'):
                    with open(j[3] + '.part', 'rb') as f: d = pickle.load(f)
                else:
                    d = dict(entry=j[1], crash='time limit' if over else f'process ended ({p.exitcode})', stats={}, labels={}, failures=[], inconclusive=[], ninc=0, assumed=[], fns=[], stubs=[], opts={})
                d['wall'] = time.time() - t0
                res[(j[0], j[1])] = d
                if VERB: print(f"  .. {j[1]} {d['wall']:.1f}s paths={d['stats'].get('paths')} fail={len(d['failures'])} inc={d['ninc']} {(d['crash'] or '')[-200:]}", flush=True)
    return res

VERB = False
MEMRE = re.compile(r'AddressSanitizer: (?!CHECK)([\w-]+)|runtime error')
def replay(exe, entry, inputs, fl, work, seed=None):
    p = f'{work}/in_{entry}_{seed or 0}.txt'
    with open(p, 'w') as f:
        for k, v in (inputs or {}).items():
            if v is not None: f.write(f'{k} {v!r}\n')
    try:
        r = subprocess.run((['valgrind', '-q', '--error-exitcode=99'] if fl['kind'] == 'uninit' else []) + [exe, entry, p] + ([str(seed)] if seed else []), capture_output=True, text=True, timeout=60, cwd=work,
                           env=dict(os.environ, ASAN_OPTIONS='detect_leaks=0:allocator_may_return_null=1:handle_abort=1', GYOTO_PLUGINS=''))
    except subprocess.TimeoutExpired:
        return None, 'timeout'
    out = r.stdout + r.stderr[-4000:]
    if fl['kind'] == 'uninit': return 'uninitialised value' in r.stderr, out
    if fl['kind'] == 'memory':
        m = MEMRE.search(r.stderr)
        if m and not re.search(r'\(pc 0x0+ ', r.stderr): return True, out
        if 'VFAIL' in r.stdout: return True, out
        return False, out
    if fl['kind'] == 'exception': return ('VTHROW' in r.stdout), out
    fails = [l[6:].strip() for l in r.stdout.splitlines() if l.startswith('VFAIL ')]
    return (fl['label'].strip() in fails), out

def confirm(unit, work, entry, fl):
    san = fl['kind'] == 'memory'
    exe = unit['native'](san)
    if exe is None: return None, 'native build failed'
    last = ''
    rnd = random.Random(7)
    cand = [fl['inputs'] or {}]
    for i in range(4 if fl['kind'] == 'uninit' else 60):
        d = dict(fl['inputs'] or {})
        for k, v in d.items():
            if isinstance(v, float):
                if i < 8: d[k] = v * (1 + 1e-3 * rnd.uniform(-1, 1)) + (1e-4 * rnd.uniform(-1, 1) if i % 2 else 0)
                elif i < 24: d[k] = v * rnd.uniform(0.7, 1.3) + 0.05 * rnd.uniform(-1, 1)
                else: d[k] = rnd.choice([rnd.uniform(0.1, 3), v, rnd.uniform(3, 12), rnd.uniform(-1, 1)])
        cand.append(d)
    for i, d in enumerate(cand):
        ok, out = replay(exe, entry, d, fl, work, None)
        if i == 0: last = out
        if ok: return d, out
    return None, last

def main():
    ap = argparse.ArgumentParser(); ap.add_argument('pid'); ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--only'); ap.add_argument('--limit', type=float); ap.add_argument('-v', action='store_true')
    a = ap.parse_args()
    global VERB; VERB = a.v
    tier = a.tier if a.tier in ('quick', 'thorough') else 'quick'
    sys.path.insert(0, HERE)
    import props
    P = props.PROPS[a.pid]
    t0 = time.time()
    limit = 820 if tier == 'quick' else 3 * 3600
    work = tempfile.mkdtemp(prefix=f'vx_{a.pid}_', dir=os.environ.get('VX_TMP', '/var/tmp'))
    code = 2
    try: code = run(a, tier, P, work, t0, limit)
    except build.BuildError as ex:
        print('BUILD ERROR', str(ex)[:3000]); code = 2
    finally:
        if os.environ.get('VX_KEEP'): print('work', work)
        else: shutil.rmtree(work, ignore_errors=True)
    sys.stdout.flush()
    os._exit(code)

def run(a, tier, P, work, t0, limit):
    pid = a.pid
    units = []
    jobs = []
    from concurrent.futures import ThreadPoolExecutor
    U = [dict(u) for u in P['units'] if tier == 'thorough' or not u.get('thorough')]
    builderr = []
    def prep(i):
        u = U[i]; w = f'{work}/bc'
        os.makedirs(w, exist_ok=True)
        u['bc'] = build.bitcode([u['h']] + u['tus'], w, f'u{i}')
        return u
    for i in range(len(U)): prep(i)
    tb = time.time() - t0
    for i, u in enumerate(U):
        cache = {}
        def native(san, u=u, i=i, cache=cache):
            if san not in cache:
                try: cache[san] = build.native([u['h']] + u['tus'], f'{work}/nat', f'n{i}', san=san)
                except build.BuildError as ex:
                    print('native build failed:', str(ex)[-1500:]); cache[san] = None
            return cache[san]
        u['native'] = native
        ents = u.get('entries') or parse_entries(u['bc'], tier)
        if u.get('match'): ents = [e for e in ents if re.search(u['match'], e)]
        if a.only: ents = [e for e in ents if re.search(a.only, e)]
        opts = dict(u.get('opts') or {}); 
        if tier == 'thorough': opts.update(u.get('topts') or {})
        if a.limit: opts['time_limit'] = a.limit
        lim = opts.setdefault('time_limit', 300 if tier == 'quick' else 3000)
        for e in ents: jobs.append((u['bc'], e, opts, f'{work}/r{i}_{e}.pkl', lim + 30))
    res = pool(jobs, int(os.environ.get('VX_JOBS', '8')), t0 + limit)
    try: known = [k for k in json.load(open(f'{HERE}/known_findings.json'))['findings'] if k['property'] == pid and k['status'] == 'known']
    except FileNotFoundError: known = []
    viol = []; undec = []; knownhit = {}; witness_missing = []
    agg = dict(queries=0, solver_s=0.0, unsat=0, sat=0, unknown=0, asserts=0, trivially=0, paths=0, steps=0, infeasible=0)
    fns = set(); stubs_used = set(); assumed = set(); per = {}
    reach_n = 0
    for u in U:
        for (bc, e), d in res.items():
            if bc != u['bc']: continue
            s = d['stats']
            for k in agg: agg[k] += s.get(k, 0)
            fns.update(d['fns']); stubs_used.update(d['stubs']); assumed.update(d['assumed'])
            per[e] = dict(paths=s.get('paths', 0), queries=s.get('queries', 0), solver_s=round(s.get('solver_s', 0), 2), asserts=s.get('asserts', 0), wall_s=round(d['wall'], 2),
                          labels={l: v for l, v in d['labels'].items()}, witness=s.get('reach', {}))
            if a.v: print(f"  {e}: {d['wall']:.1f}s paths={s.get('paths')} asserts={s.get('asserts')} q={s.get('queries')} solver={s.get('solver_s', 0):.1f}s reach={s.get('reach')} inc={d['ninc']}")
            if d['crash']: undec.append((e, 'engine: ' + d['crash'])); continue
            for x in d['inconclusive']: undec.append((e, x))
            r = s.get('reach', {})
            if not d['failures'] and not any(v == 'sat' for v in r.values()): undec.append((e, f'no satisfiable witness {r}'))
            reach_n += sum(1 for v in r.values() if v == 'sat')
            seen = {}
            for fl in d['failures']:
                key = (fl['kind'], fl['label'] if fl['kind'] == 'assert' else re.sub(r'\d+', 'N', fl['label']))
                seen.setdefault(key, []).append(fl)
            for key, fs in seen.items():
                kn = [k for k in known if k['entry'] == e and (k['label'] == fs[0]['label'] or re.fullmatch(k['label'], fs[0]['label']))]
                if kn: knownhit.setdefault(kn[0]['what'], []).append((e, fs[0])); continue
                inp = None; out = ''
                for fl in fs[:4]:
                    inp, out = confirm(u, work, e, fl)
                    if inp is not None: break
                if inp is None: undec.append((e, f"counterexample to '{fs[0]['label']}' not reproduced natively: {fs[0]['inputs']} {fs[0]['extra'][:200]} :: {out[-300:]}"))
                else: viol.append((u, e, fl, inp, out))
    os.makedirs(f'{HERE}/evidence', exist_ok=True)
    for f in os.listdir(f'{HERE}/evidence'):
        if f.startswith(f'{pid}_violation_'): os.unlink(f'{HERE}/evidence/{f}')
    vout = []
    for n, (u, e, fl, inp, out) in enumerate(viol):
        rp = f'{HERE}/evidence/{pid}_violation_{n}.json'
        json.dump(dict(property=pid, harness=u['h'], tus=u['tus'], entry=e, kind=fl['kind'], label=fl['label'], inputs=inp, where=fl['where'], detail=fl['extra'], native_output=out[-3000:],
                       how=f'python3-vt {HERE}/replay.py {rp}'), open(rp, 'w'), indent=1)
        vout.append(rp)
    cov = dict(solver='z3 ' + z3v(), functions_encoded=sorted(x for x in dem(fns) if 'Gyoto' in x), n_functions_encoded=len(fns), bounds=P['bounds'], outside_bounds=P.get('outside', ''),
               queries_discharged=agg['queries'], unsat=agg['unsat'], sat=agg['sat'], unknown=agg['unknown'], solver_s=round(agg['solver_s'], 2), assertions=agg['asserts'], assertions_folded_to_constants=agg['trivially'],
               paths=agg['paths'], infeasible_branches=agg['infeasible'], instructions=agg['steps'], entries=per, satisfiable_witnesses=reach_n, undecided=[f'{e}: {x}'[:400] for e, x in undec][:60],
               modelled_externals=sorted(stubs_used)[:200], build_s=round(tb, 2),
               explanation='bounded symbolic execution of the LLVM IR clang emits for the current sources; every assertion negated and decided by z3 over exact reals / bit-vectors for all values within the bounds')
    ev = dict(property=pid, tier=tier, seed=int(os.environ.get('VERIF_SEED', '1') or 1), level=P.get('level', 'other'), coverage=cov, wall_s=round(time.time() - t0, 2),
              assumptions=sorted(set(P.get('assumptions', []) + props_assume() + sorted(assumed)))[:80], violations=len(viol))
    json.dump(ev, open(f'{HERE}/evidence/{pid}.json', 'w'), indent=1)
    for w, hits in knownhit.items(): print(f"KNOWN-FINDING: property={pid} {w}")
    for e, x in undec[:20]: print(f'UNDECIDED {pid} {e}: {str(x)[:1200]}')
    print(f"{pid} [{tier}] entries={len(per)} paths={agg['paths']} assertions={agg['asserts']} queries={agg['queries']} (unsat {agg['unsat']}, sat {agg['sat']}, unknown {agg['unknown']}) solver={agg['solver_s']:.1f}s wall={time.time()-t0:.1f}s violations={len(viol)} undecided={len(undec)}")
    if viol:
        for (u, e, fl, i, o), rp in zip(viol, vout):
            print(f'VIOLATION property={pid} replay={rp}')
            print(f'  {e}: {fl["label"]}  inputs={i}')
        return 1
    if undec and len(set(e for e, _ in undec)) == len(per): return 2
    return 0

def props_assume():
    return ['floating point arithmetic is read as exact real arithmetic (rounding, overflow and NaN generation are outside the claim); constants that are multiples of pi are read as exact',
            'logging (debug/verbose output) and iostream formatting have no effect on the results', 'divisions are by non-zero values and square roots of non-negative values unless an entry checks them']
def z3v():
    import z3; return z3.get_version_string()
def dem(names):
    names = sorted(names)
    try:
        r = subprocess.run(['c++filt'], input='\n'.join(names), capture_output=True, text=True); return r.stdout.splitlines()
    except Exception: return names

if __name__ == '__main__': main()
