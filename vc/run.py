"""Check one property: prove every obligation of its contracts on /repo's current source (symbolic run), cross-check the
same contracts concretely on the real code, search a failing input for anything that fails.

usage: run.py PXX            (VERIF_SEED, VERIF_TIER in the environment)
       run.py --replay FILE  re-executes a recorded failing input on the real code"""
import sys, os, time, json, multiprocessing, re, traceback
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
os.environ.setdefault('OPENBLAS_NUM_THREADS', '1'); os.environ.setdefault('OMP_NUM_THREADS', '1')
ROOT = os.environ.get('VP_REPO', '/repo')
sys.setrecursionlimit(20000)

def overrides():
    from vc import pyx
    ov = {}
    d = os.path.join(ROOT, 'pyparticleest/utils')
    for n in sorted(os.listdir(d)):
        if n.endswith('.pyx'):
            ov['pyparticleest.utils.' + n[:-4]] = pyx.to_py(open(os.path.join(d, n)).read())
    return ov

_G = {}
def init(prop):
    import warnings
    warnings.simplefilter('ignore')
    from vc import conc
    ov = overrides()
    _G['ov'] = ov
    conc.Loader(ROOT, {})
    loaded = {}
    for n, s in ov.items():
        import types
        m = types.ModuleType(n)
        loaded[n] = m
    # converted .pyx modules are importable under a separate prefix only through the contracts
    _G['pyxmods'] = loaded
    name = 'contracts.c' + prop[1:]
    path = os.path.join(HERE, 'contracts', 'c%s.py' % prop[1:])
    sys.path.insert(1, HERE)
    m, src = load(path, name, ov)
    _G['m'] = m; _G['src'] = src; _G['name'] = name

def load(path, name, ov):
    """load the contract module; `pyparticleest.utils.c*` imports made by the contract see the converted .pyx,
    imports made by the library itself see its own pure-Python fallback"""
    import importlib, pkgutil
    import pyparticleest.models.mlnlg, pyparticleest.models.ltv, pyparticleest.models.nlg, pyparticleest.models.rbpf, pyparticleest.models.hierarchial
    from vc import conc
    import types
    for n, s in ov.items():
        mm = types.ModuleType(n)
        sys.modules[n] = mm
        exec(compile(s, n, 'exec'), mm.__dict__)
        setattr(sys.modules['pyparticleest.utils'], n.split('.')[-1], mm)
    return conc.load_contracts(path, name)

def task(t):
    kind, cname, a = t
    try:
        if kind == 'sym':
            from vc import sym
            if os.environ.get('VC_NOSYM'): return t, dict(obligations=[], unsupported=[], paths=0, funcs={}, z3=0, z3_time=0, loops=0, infeasible=0, time=0)
            spec = _G['m'].__dict__.get('SYM', {})
            if spec.get(cname) == 'bounded':
                return t, dict(obligations=[], unsupported=[dict(case='', reason='contract declared bounded')], paths=0, funcs={}, z3=0, z3_time=0, loops=0, infeasible=0, time=0)
            return t, sym.run_contract(ROOT, _G['src'], _G['name'], cname, _G['ov'], budget=a['budget'], part=a['part'], deadline=a['deadline'])
        else:
            from vc import conc
            import io, contextlib
            with contextlib.redirect_stdout(io.StringIO()):
                r = conc.run_contract(getattr(_G['m'], cname), a['seed'], a['runs'], a['tmax'])
            r['labels'] = sorted(r['labels']); r['combos'] = len(r['combos'])
            r['fails'] = [(s, c, f, [i if isinstance(i, str) else i[0] for i in inp]) for s, c, f, inp in r['fails']]
            return t, r
    except Exception as e:
        return t, dict(error='%s: %s\n%s' % (type(e).__name__, e, traceback.format_exc()))

def join(a, b):
    """results of the parts of one contract"""
    if a is None or 'error' in a: return b if a is None else a
    if 'error' in b: return b
    r = {}
    for k in a:
        if k == 'funcs': r[k] = dict((n, a[k].get(n, 0) + b[k].get(n, 0)) for n in list(a[k]) + list(b[k]))
        elif k == 'time': r[k] = max(a[k], b[k])
        else: r[k] = a[k] + b[k]
    return r

def replay(path):
    d = json.load(open(path))
    init(d['property'])
    from vc import conc
    v, st = conc.run_once(getattr(_G['m'], d['contract']), d['seed'], d['choices'])
    print(st)
    for i in v.inputs: print('  input', i if isinstance(i, str) else '%s = %s' % (i[0], i[1]))
    for l, m in v.fails: print('  FAILS', l, ':', m)
    return 1 if v.fails else 0

def known():
    p = os.path.join(HERE, 'KNOWN_FINDINGS.jsonl')
    out = []
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l and not l.startswith('#'):
                d = json.loads(l)
                if d.get('status') == 'known': out.append(d)
    return out

def main():
    if sys.argv[1] == '--replay': sys.exit(replay(sys.argv[2]))
    prop = [a for a in sys.argv[1:] if not a.startswith('--')][0]
    t0 = time.time()
    seed = int(os.environ.get('VERIF_SEED', '1'))
    tier = 'thorough' if '--thorough' in sys.argv else os.environ.get('VERIF_TIER', 'quick')
    thorough = tier == 'thorough'
    init(prop)
    m = _G['m']
    cs = m.CONTRACTS
    conf = getattr(m, 'CONF', {})
    budget = conf.get('budget', 60) * (3 if thorough else 1)
    runs = conf.get('runs', 60) * (40 if thorough else 1)
    tmax = conf.get('tmax', 6.0) * (10 if thorough else 1)
    tasks = [('conc', c, dict(seed=seed, runs=runs, tmax=tmax)) for c in cs]
    split = conf.get('split', {})
    deadline = t0 + (1500 if thorough else 420)      # all symbolic work ends here
    tasks += [('sym', c, dict(budget=budget, deadline=deadline, part=(q, split.get(c, 1)))) for c in cs for q in range(split.get(c, 1))]
    tasks.sort(key=lambda t: t[0] != 'sym')
    ctx = multiprocessing.get_context('fork')
    results = {}
    with ctx.Pool(min(8, len(tasks)), maxtasksperchild=4) as pool:
        for t, r in pool.imap_unordered(task, tasks, chunksize=1): results[(t[0], t[1])] = join(results.get((t[0], t[1])), r)
        # search for failing inputs of contracts whose proof failed but whose concrete run passed
        more = []
        for c in cs:
            s = results[('sym', c)]; k = results[('conc', c)]
            if 'error' in s or 'error' in k: continue
            if any(not o['ok'] for o in s['obligations']) and not k['fails']:
                for q in range(4):
                    more.append(('conc', c, dict(seed=seed + 101 + q, runs=1500, tmax=8.0)))
            elif s['unsupported'] and not k['fails'] and getattr(m, 'SYM', {}).get(c) is None:
                for q in range(2):      # out of the prover's reach: the bounded stand-in gets more runs
                    more.append(('conc', c, dict(seed=seed + 101 + q, runs=1500, tmax=8.0)))
        extra = {}
        for t, r in pool.imap_unordered(task, more, chunksize=1):
            if 'error' in r: continue
            k = results[('conc', t[1])]
            k['evaluations'] += r['evaluations']; k['obligations'] += r['obligations']; k['fails'] += r['fails']
    errors = [(k, r['error']) for k, r in results.items() if 'error' in r]
    for k, e in errors: print('ERROR', k, e)
    kn = [d for d in known() if d['property'] == prop]
    def is_known(c, label, case=''):
        for d in kn:
            if d['contract'] == c and re.search(d['label'], label) and (not d.get('case') or re.search(d['case'], case)): return d
        return None
    rdir = os.path.join(HERE, 'evidence', 'replay')
    os.makedirs(rdir, exist_ok=True)
    viol = []; knownhit = {}
    detail = []
    nob = nok = 0; backends = {}; funcs = {}; z3n = 0; z3t = 0.0; loops = 0; bounded = []; ev = 0; nontriv = 0; samples = []
    concob = 0
    for c in cs:
        s = results[('sym', c)]; k = results[('conc', c)]
        if 'error' in s or 'error' in k: continue
        okc = sum(1 for o in s['obligations'] if o['ok'])
        nob += len(s['obligations']); nok += okc
        for o in s['obligations']:
            if o['ok']: backends[o['backend'] or 'normaliser'] = backends.get(o['backend'] or 'normaliser', 0) + 1
        for f in s['funcs']:
            if f.startswith('pyparticleest'): funcs[f] = funcs.get(f, 0) + 1
        z3n += s['z3']; z3t += s['z3_time']; loops += s['loops']
        ev += k['evaluations']; nontriv += k['combos']; concob += k['obligations']
        if k['samples'] and len(samples) < 4: samples.append(dict(contract=c, **k['samples'][0]))
        if s['unsupported']: bounded.append(dict(contract=c, reasons=sorted(set(u['reason'] for u in s['unsupported']))[:4], concrete_runs=k['evaluations']))
        detail.append(dict(contract=c, obligations=len(s['obligations']), discharged=okc, paths=s['paths'], infeasible_paths=s['infeasible'],
                           unsupported_cases=len(s['unsupported']), loops_summarised=s['loops'], sym_s=round(s['time'], 2),
                           concrete_runs=k['evaluations'], concrete_assertions=k['obligations'], conc_s=round(k.get('time', 0), 2)))
        if k['evaluations'] == 0:
            errors.append((('conc', c), 'no concrete run completed'))
            print('ERROR', c, 'no concrete run completed')
        cf = []
        for sd, ch, fl, inp in k['fails']:
            for label, msg in fl:
                case = ' '.join(i for i in inp if isinstance(i, str))
                d = is_known(c, label, case)
                if d: knownhit[(d['contract'], d['label'])] = d
                else: cf.append((sd, ch, label, msg, inp))
        sf = []
        for o in s['obligations']:
            if not o['ok']:
                d = is_known(c, o['label'], o['case'])
                if d: knownhit[(d['contract'], d['label'])] = d
                else: sf.append(o)
        if cf:
            sd, ch, label, msg, inp = cf[0]
            p = os.path.join(rdir, '%s-%s.json' % (prop, c))
            json.dump(dict(property=prop, contract=c, seed=sd, choices=ch, label=label, message=msg, inputs=inp,
                           failed_obligations=[dict(case=o['case'], label=o['label'], detail=o['detail']) for o in sf[:10]],
                           replay='%s -B %s --replay %s' % (sys.executable, os.path.abspath(__file__), p)), open(p, 'w'), indent=1)
            print('FAILED %s: %s' % (c, label)); print('   ', msg[:600]); print('    case:', [i for i in inp if '=' in i][:12])
            viol.append('VIOLATION property=%s replay=%s' % (prop, p))
        elif sf:
            o = sf[0]
            p = os.path.join(rdir, '%s-%s.json' % (prop, c))
            json.dump(dict(property=prop, contract=c, obligation=o['label'], case=o['case'], verifier_output=o['detail'],
                           all_failed=[dict(case=q['case'], label=q['label'], detail=q['detail']) for q in sf[:20]]), open(p, 'w'), indent=1)
            print('UNPROVED %s: %s [%s] %s' % (c, o['label'], o['case'], o['detail'][:600]))
            viol.append('VIOLATION property=%s replay=%s no-failing-input-found' % (prop, p))
    for d in knownhit.values():
        print('KNOWN-FINDING: property=%s %s' % (prop, d['what']))
    level = 'proof'
    try:
        for ch in json.load(open(os.path.join(HERE, 'MANIFEST.json')))['checks']:
            if ch['property'] == prop: level = ch['level']
    except (OSError, ValueError): pass
    cov = dict(obligations=nob, discharged=nok,
               checker_cmd='/opt/venv/bin/python -B /verif/vc/run.py %s' % prop,
               trusted_base=['vc/ (VC generator: symbolic executor, term normaliser, loop summaries)', 'z3 4.x (python bindings)',
                             'assumed contracts on numpy/scipy/math functions (vc/npmodel.py), cross-checked by the concrete runs',
                             'mechanical .pyx->.py conversion (vc/pyx.py)'] + list(getattr(m, 'TRUSTED', [])),
               functions_under_contract=sorted(funcs), backends=backends, z3_queries=z3n, solver_time_s=round(z3t, 2), loops_summarised=loops,
               contracts=detail, bounded_standins=bounded, bounded_note='contracts listed here have cases the prover does not reach; for those cases the concrete runs are a bounded stand-in and are not counted as discharged',
               evaluations=ev, distinct_nontrivial=nontriv, concrete_assertions=concob,
               rule='one concrete run = one contract executed on the real code with generated arguments; distinct = different (case choices, dimensions) combination', samples=samples)
    if level == 'exploration':
        cov['obligations_note'] = 'symbolic obligations, in addition to the exploration'
    evd = dict(property=prop, tier=tier, seed=seed, level=level, coverage=cov,
               assumptions=['real arithmetic instead of floating point (rounding, overflow and underflow ignored)',
                            'denominators non-zero and matrices passed to inverse/Cholesky positive definite (LinAlgError not modelled)',
                            'numpy/scipy functions behave as their assumed contracts'] + list(getattr(m, 'ASSUMPTIONS', [])),
               wall_s=round(time.time() - t0, 2), violations=len(viol))
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    json.dump(evd, open(os.path.join(HERE, 'evidence', prop + '.json'), 'w'), indent=1)
    print('%s: %d/%d obligations discharged (%d contracts, %d functions), %d concrete runs with %d assertions, %d bounded, %.1fs' %
          (prop, nok, nob, len(cs), len(funcs), ev, concob, len(bounded), time.time() - t0))
    for v in viol: print(v)
    if errors and not viol: sys.exit(2)
    sys.exit(1 if viol else 0)

if __name__ == '__main__':
    main()
