"""check PROPERTY: explore, replay, report, write evidence."""
import os, sys, time, json, tempfile, shutil, subprocess, traceback, resource
from fractions import Fraction
from . import build, engine
from .dom import Unsupported

VERIF = build.VERIF
REPO = os.environ.get('SACF_REPO', '/repo')
EVDIR = os.environ.get('SYMX_EVIDENCE', os.path.join(VERIF, 'evidence'))


class Replayer:
    def __init__(self, eng):
        self.eng = eng
        self.asan_dir = None
        self.runs = 0

    def native(self):
        if not self.eng.native_ready:
            build.wait_native(self.eng.native)
            self.eng.native_ready = True
        return os.path.join(self.eng.work, 'native')

    def asan(self):
        if self.asan_dir is None:
            self.asan_dir = os.path.join(self.eng.work, 'asan')
            build.wait_native(build.start_native(self.eng.repo, self.asan_dir, asan=True))
        return self.asan_dir

    def shim(self, name):
        lib = os.path.join(self.eng.work, name + '.so')
        if not os.path.exists(lib):
            subprocess.run(['gcc', '-O1', '-shared', '-fPIC', '-o', lib, os.path.join(VERIF, 'stub', name + '.c'), '-ldl'], check=True)
        return lib

    def run(self, jobs, asan=False, timeout=60):
        """results for jobs; a crash or hang ends the list with that status"""
        d = self.asan() if asan else self.native()
        env = {k: v for k, v in os.environ.items() if k in ('PATH', 'HOME', 'LANG', 'TMPDIR')}
        env['VERIF_TIER'] = self.eng.tier
        env['PYTHONHASHSEED'] = '0'
        env['PYTHONDONTWRITEBYTECODE'] = '1'
        if asan:
            env['LD_PRELOAD'] = ' '.join(subprocess.run(['g++', '-print-file-name=' + l], stdout=subprocess.PIPE, text=True).stdout.strip() for l in ('libasan.so', 'libstdc++.so.6'))
            env['ASAN_OPTIONS'] = 'detect_leaks=0:halt_on_error=1:exitcode=99:handle_segv=1:malloc_context_size=6:allocator_may_return_null=1'
        for name in getattr(sys.modules['scen.' + self.eng.prop.lower()], 'SHIMS', ()):
            if not asan or name != 'held':
                env['LD_PRELOAD'] = (env.get('LD_PRELOAD', '') + ' ' + self.shim(name)).strip()
        f = tempfile.NamedTemporaryFile('w', suffix='.json', dir=self.eng.work, delete=False)
        json.dump(jobs, f)
        f.close()
        self.runs += len(jobs)
        cmd = [build.PYPY, os.path.join(VERIF, 'symx', 'replay.py'), d, self.eng.prop.lower(), f.name]
        try:
            p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env, timeout=timeout, cwd=self.eng.work)
            out, err, rc = p.stdout.decode('utf-8', 'replace'), p.stderr.decode('utf-8', 'replace'), p.returncode
        except subprocess.TimeoutExpired as e:
            out, err, rc = (e.stdout or b'').decode('utf-8', 'replace'), '', 'timeout'
        res = []
        for ln in out.splitlines():
            try:
                res.append(json.loads(ln))
            except ValueError:
                pass
        if len(res) < len(jobs):
            if rc == 'timeout':
                res.append(dict(status='hang', detail='no answer within %d s' % timeout))
            elif asan and 'AddressSanitizer' in err or 'Assertion' in err:
                i = err.find('ERROR: AddressSanitizer')
                if i < 0: i = err.find('Assertion')
                res.append(dict(status='memory', detail=err[max(0, i - 200):i + 1500]))
            elif rc not in (0, 1):
                res.append(dict(status='crash', detail='process ended with status %s\n%s' % (rc, err[-500:])))
            else:
                res.append(dict(status='error', detail=err[-1500:]))
        return res


def job(f, inputs):
    return dict(scen=f['scen'], choices=f['choices'], inputs=inputs)


def confirm(rep, f):
    """replay a solver counterexample; the job and result if the real code fails as well"""
    for inputs in f['models']:
        j = job(f, inputs)
        if f['kind'] in ('memory',):
            r = rep.run([j], asan=True)[-1]
            if r['status'] in ('memory', 'crash', 'hang', 'failed', 'exception'):
                return j, r
            r = rep.run([j])[-1]
            if r['status'] in ('crash', 'hang', 'failed', 'exception'):
                return j, r
        else:
            r = rep.run([j], timeout=30)[-1]
            if r['status'] in ('failed', 'crash', 'hang', 'exception'):
                return j, r
    return None


def bounds(mod, tier):
    out = [getattr(mod, 'BOUNDS', {}).get(tier, '')]
    for k in ('large', 'rough'):
        box = getattr(getattr(mod, k, None), 'BOX', '')
        if box and box not in out[0]:
            out.append(box)
    return '; '.join(out)


def main():
    prop = sys.argv[1].upper()
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--thorough' in sys.argv: tier = 'thorough'
    os.environ['VERIF_TIER'] = tier
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    sys.setrecursionlimit(20000)
    sys.set_int_max_str_digits(0)
    work = tempfile.mkdtemp(prefix='sacf-%s-' % prop.lower())
    code = 2
    try:
        code = check(prop, tier, seed, work, t0)
    finally:
        shutil.rmtree(work, ignore_errors=True)
    sys.exit(code)


def check(prop, tier, seed, work, t0):
    eng = engine.Engine(prop, tier, seed)
    m = eng.mod
    eng.prepare(REPO, work)
    rep = Replayer(eng)
    confirmed = []
    spurious = []
    nproc = int(os.environ.get('SYMX_PROCS', os.cpu_count() or 4))
    budget = float(os.environ.get('SYMX_BUDGET', 330 if tier == 'quick' else 660))
    known = known_findings(prop)
    kfound = []
    tries = []              # paths that left the encodable part
    slow = []               # paths cut off by the step budget although the real code ends
    soft = []               # accuracy the enclosures could not settle and the real code did not refute

    def on_fail(f):
        if f.get('outside'):
            tries.append(f)
            if len(tries) > 60 or sum(g['scen'] == f['scen'] for g in tries) > 6:
                return None
        many = f.get('soft') and sum(g['scen'] == f['scen'] for g in soft) >= 4
        r = confirm(rep, dict(f, models=f['models'][:1]) if many else f)
        if r is None and f.get('outside'):
            return None
        if r is None and (f.get('soft') or f['label'] == 'uninitialised'):
            soft.append(f)
            return None
        if r is None and f['kind'] == 'hang':
            slow.append(f['scen'])
            return None
        if r is None:
            spurious.append(f)
            return 'error' if len(spurious) >= 12 else None
        k = is_known(known, f)
        if k:
            kfound.append(k)
            return None
        confirmed.append((f,) + r)
        return 'violation'

    tot = engine.explore(eng, nproc, budget, on_fail)
    ok_traces = 0
    mismatches = []
    leak = None
    if not confirmed:
        ok_traces, mismatches = validate(eng, rep, tot['witnesses'], 60 if tier == 'quick' else 150)
        leak = after_others(rep, mismatches)
    wall = time.time() - t0
    violations = 0
    code = 0
    if leak:
        confirmed.append(leak)
    if confirmed:
        f, j, r = confirmed[0]
        d = os.path.join(EVDIR, 'replay')
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, '%s.json' % prop)
        with open(path, 'w') as h:
            json.dump(dict(property=prop, tier=tier, job=j, symbolic=dict(kind=f['kind'], label=f['label'], detail=f['detail']), real=r,
                           how='/verif/check %s --replay %s' % (prop, path)), h, indent=1)
        print('scenario %s: %s %s' % (f['scen'], f['label'], f['detail']))
        print('inputs: %s choices: %s' % (json.dumps(j['inputs']), json.dumps(j['choices'])))
        print('on the real build: %s %s' % (r['status'], r.get('detail', '')))
        print('VIOLATION property=%s replay=%s' % (prop, path))
        violations = 1
        code = 1
    problems = []
    notes = []
    if not confirmed:
        if tot['broken']: problems.append(tot['broken'])
        if spurious: problems.append('%d counterexamples did not reproduce, e.g. %s' % (len(spurious), json.dumps(spurious[0])[:1500]))
        if mismatches: problems.append('encoding and real code differ: %s' % json.dumps({k: v for k, v in mismatches[0].items() if k != 'before'})[:1500])
        out = [s[0] for s in eng.scenarios if tot['scen'].get(s[0], {}).get('unsupported')]
        if out:
            # a scenario that leaves the encodable part is not decided; the others still are
            (problems if 2 * len(out) > len(eng.scenarios) else notes).append('not encoded: %s; scenarios not decided: %s' % (tot['unsupported'], ', '.join(out)))
        for s in eng.scenarios:
            c = tot['scen'].get(s[0])
            if s[0] in slow or s[0] in out: continue
            if not c or (c['paths'] == 0 and not c['pending']) or (c['reached'] == 0 and not c['pending']):
                problems.append('scenario %s never reaches its assertions' % s[0])
        if tot['unknown']:
            (problems if 2 * tot['unknown'] > tot['paths'] else notes).append('%d paths with an undecided assertion in %s' % (tot['unknown'], ', '.join(k for k, v in tot['scen'].items() if v['unknown'])))
        if ok_traces == 0: problems.append('no witness could be replayed')
        if problems:
            code = 2
    if soft or tot['soft']:
        notes.append('accuracy or transcendental functions not settled in %s' % ', '.join(sorted({g['scen'] for g in soft} | {k for k, v in tot['scen'].items() if v.get('soft')})))
    if tot['late']:
        notes.append('%d paths stopped at the time limit in %s' % (len(tot['late']), ', '.join(sorted(set(tot['late'])))))
    if slow:
        notes.append('%d paths longer than the step budget in %s' % (len(slow), ', '.join(sorted(set(slow)))))
    for n in notes:
        print('NOTE: ' + n)
    for k in sorted(set(kfound)):
        print('KNOWN-FINDING: property=%s %s' % (prop, k))
    tot['soft'] += len(soft)
    tot['slow'] = len(slow)
    tot['notes'] = notes
    write_evidence(eng, rep, tot, prop, tier, seed, wall, ok_traces, violations, problems)
    st = tot['stats']
    print('%s %s: %d paths, %d assertions reached, %d branch queries, %d assertion queries, %.1f s in the solver, %d witnesses replayed, %.1f s%s'
          % (prop, tier, tot['paths'], tot['reached'], st['branch_queries'], st['assert_queries'], st['solver_s'], ok_traces, wall,
             ', %d path prefixes left unexplored' % tot['pending'] if tot['pending'] and not confirmed else ''))
    for p in problems:
        print('ERROR: ' + p)
    return code


def validate(eng, rep, witnesses, limit):
    """replay inputs of explored paths on the real build and compare what was observed"""
    import random
    rnd = random.Random(eng.seed)
    per = {}
    for w in witnesses:
        per.setdefault(w['scen'], []).append(w)
    pick = []
    for s in per.values():
        rnd.shuffle(s)
    while len(pick) < limit and any(per.values()):
        for s in per.values():
            if s: pick.append(s.pop())
    pick = pick[:limit]
    if not pick:
        return 0, []
    ok = 0
    bad = []
    i = 0
    while i < len(pick):
        res = rep.run([job(w, w['models'][0]) for w in pick[i:]], timeout=120)
        first = i
        for n, (w, r) in enumerate(zip(pick[i:], res)):
            before = [job(v, v['models'][0]) for v in pick[first:first + n]]
            if r['status'] == 'skip':
                continue
            exact = all(dyadic(v) for v in w['models'][0].values())
            if r['status'] != 'ok':
                if exact or r['status'] != 'failed':
                    bad.append(dict(witness=w, real=r, before=before))
                continue
            d = differs(w['observed'], r['observed'])
            if d and not exact:
                continue                # rounding may put these inputs on another path
            if d:
                bad.append(dict(witness=w, real=r, differ=d, before=before))
            else:
                ok += 1
        if not res:
            break
        i += len(res)
    return ok, bad


def after_others(rep, bad):
    """a property that fails on the real build only after the runs before it in the same process: what was computed earlier is not forgotten.
    The failing run, what came before it, and the result."""
    for b in bad[:4]:
        w, before = b['witness'], b['before']
        if b['real']['status'] != 'failed':
            continue
        j = job(w, w['models'][0])
        alone = rep.run([j])[-1]
        if alone['status'] != 'ok':
            continue
        again = rep.run(before + [j], timeout=120)
        if len(again) == len(before) + 1 and again[-1]['status'] == 'failed':
            return (dict(scen=w['scen'], choices=w['choices'], kind='assert', label='fails after %d earlier computations in the same process' % len(before), detail='', models=w['models']),
                    dict(j, before=before), again[-1])
    return None


def dyadic(v):
    d = Fraction(v).denominator
    return d & (d - 1) == 0 and d <= 1024 and abs(Fraction(v)) <= 2 ** 20


def differs(a, b):
    if not a: return None
    if len(a) != len(b): return 'number of observations'
    for (l, x), (k, y) in zip(a, b):
        if l != k: return 'label'
        if not close(x, y): return l
    return None


def close(x, y):
    if isinstance(x, (list, tuple)) or isinstance(y, (list, tuple)):
        return isinstance(x, (list, tuple)) and isinstance(y, (list, tuple)) and len(x) == len(y) and all(close(p, q) for p, q in zip(x, y))
    if x is None: return True
    if y is None: return True
    y = float(y)
    if x != x or y != y: return x != x and y != y
    return x == y or abs(x - y) <= 1e-7 * max(1, abs(x), abs(y))


def known_findings(prop):
    p = os.path.join(VERIF, 'known_findings.txt')
    out = []
    if os.path.exists(p):
        for ln in open(p):
            ln = ln.strip()
            if ln.startswith('finding: property=%s ' % prop):
                out.append(ln.split(' ', 2)[2])
    return out


def is_known(known, f):
    for k in known:
        # "scen=<name> label=<label> text"
        parts = dict(x.split('=', 1) for x in k.split(' ')[:2] if '=' in x)
        if parts.get('scen') == f['scen'] and f['label'].replace(' ', '_').startswith(parts.get('label', '?')):
            return k
    return None


def write_evidence(eng, rep, tot, prop, tier, seed, wall, ok_traces, violations, problems):
    st = tot['stats']
    funcs = sorted({demangle(f) for l in tot['called'].values() for f in l if 'Correlat' in f or 'DataStructure' in f or 'findMinDiff' in f})
    samples = [dict(scenario=w['scen'], choices=w['choices'], inputs=w['models'][0]) for w in tot['witnesses'][:5]]
    ev = dict(property=prop, tier=tier, seed=seed, level='model_checking', wall_s=round(wall, 2), violations=violations,
              coverage=dict(states=tot['paths'], transitions=tot['decisions'], traces_validated_against_impl=ok_traces, samples=samples,
                            explanation='states: complete symbolic paths (each stands for all inputs satisfying its constraints); transitions: decisions along them; '
                                        'traces_validated_against_impl: solver-made inputs of explored paths run on the real build with the same assertions and the same observed values',
                            exhaustive=(tot['pending'] == 0 and tot['soft'] == 0 and tot['slow'] == 0 and tot['stop'] is None and not problems and not tot['notes']),
                            infeasible_or_assumed_away=tot['aborts'], assertions_reached=tot['reached'], assertions_left_to_the_solver=tot['conds'],
                            branch_queries=st['branch_queries'], assertion_queries=st['assert_queries'], undecided=tot['unknown'], accuracy_not_settled=tot['soft'], longer_than_step_budget=tot['slow'], not_decided=tot['notes'],
                            solver='z3 ' + z3v(), solver_seconds=round(st['solver_s'], 2), longest_path_decisions=tot['maxdec'],
                            unexplored_prefixes=tot['pending'], functions_encoded=funcs, replays_on_real_build=rep.runs,
                            python_files_executed=sorted(eng.pycode), scenarios={k: dict(paths=v['paths'], assertions=v['reached'], unexplored=v['pending']) for k, v in tot['scen'].items()},
                            bounds=bounds(eng.mod, tier), problems=problems),
              assumptions=ASSUMPTIONS + list(getattr(eng.mod, 'ASSUMES', [])))
    os.makedirs(EVDIR, exist_ok=True)
    with open(os.path.join(EVDIR, prop + '.json'), 'w') as h:
        json.dump(ev, h, indent=1)


ASSUMPTIONS = [
    'input numbers are at most 2^40 in magnitude (or NaN where a scenario says so)',
    'doubles are exact reals with NaN and infinities, except in the scenarios whose names start with rounded: there every operation may be off by half a unit in the last place, within the stated boxes of inputs; overflow is outside the claim',
    'exp and sqrt are uninterpreted functions with sign, monotonicity and fixed-point axioms',
    'the pybind11 headers are replaced by a stand-in that performs the same argument conversions, overload order, keep_alive and exception mapping',
    'libstdc++ container code is executed from its headers; iostream, operator new/delete and exception run time are modelled',
    'memory allocation does not fail below 2 GiB',
]


def z3v():
    import z3
    return z3.get_version_string()


def demangle(n):
    global _DM
    try:
        _DM
    except NameError:
        _DM = {}
    if n not in _DM:
        try:
            _DM[n] = subprocess.run(['c++filt', n], stdout=subprocess.PIPE, text=True).stdout.strip() or n
        except OSError:
            _DM[n] = n
    return _DM[n]


def replay_file(prop, path):
    d = json.load(open(path))
    tier = d.get('tier', 'quick')
    os.environ['VERIF_TIER'] = tier
    work = tempfile.mkdtemp(prefix='sacf-replay-')
    try:
        eng = engine.Engine(prop, tier, 1)
        eng.repo = REPO; eng.work = work
        eng.native = build.start_native(REPO, os.path.join(work, 'native'))
        for c in getattr(eng.mod, 'CONTEXTS', ()):
            if c != 'sandbox':
                eng.native += build.start_native(REPO, os.path.join(work, 'native-' + c), context=c)
        eng.native_ready = False
        rep = Replayer(eng)
        r = rep.run(d['job'].get('before', []) + [{k: v for k, v in d['job'].items() if k != 'before'}], asan=d['symbolic']['kind'] == 'memory')[-1]
        print(json.dumps(r, indent=1))
        return 0 if r['status'] in ('ok', 'skip') else 1
    finally:
        shutil.rmtree(work, ignore_errors=True)


if __name__ == '__main__':
    if '--replay' in sys.argv:
        sys.exit(replay_file(sys.argv[1].upper(), sys.argv[sys.argv.index('--replay') + 1]))
    try:
        main()
    except SystemExit:
        raise
    except Unsupported as e:
        print('ERROR: not encoded: %s' % e)
        sys.exit(2)
    except BaseException:
        traceback.print_exc()
        sys.exit(2)
