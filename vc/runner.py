"""Runs the contracts of one property: proof, executable replay, evidence."""
import concurrent.futures as cf
import hashlib
import importlib
import json
import math
import multiprocessing as mp
import os
import random
import re
import resource
import shutil
import subprocess
import sys
import tempfile
import time
import traceback

from . import cfront, smt
from .cfront import REPO, CPP, VERIF, SHIMS

sys.setrecursionlimit(20000)

CXX = ['g++', '-std=c++20', '-w', '-O1', '-g0', '-fsanitize=address,undefined', '-fno-sanitize-recover=undefined',
       '-D_GLIBCXX_ASSERTIONS', '-fopenmp', '-DEIGEN_DONT_PARALLELIZE', '-I' + CPP, '-I' + SHIMS,
       '-include', 'verif_eigen_span.h', '-I/usr/include/eigen3', '-I/usr/include/hdf5/serial', '-I' + VERIF + '/drivers',
       '-I' + CPP + '/third_party/fftx_codelets', '-I' + CPP + '/third_party/fftx_codelets/include']
LIBS = '-lnetcdf -lhdf5_serial_cpp -lhdf5_serial -llapack -lblas -labsl_statusor -labsl_status -labsl_str_format_internal -labsl_cord -labsl_cordz_info -labsl_cordz_handle -labsl_cordz_functions -labsl_cord_internal -labsl_strings -labsl_strings_internal -labsl_throw_delegate -labsl_int128 -labsl_raw_logging_internal -labsl_base -labsl_spinlock_wait -labsl_synchronization'.split()


class BuildError(Exception):
    pass


def driver_text(contracts, preamble):
    text = '#include "vdriver.h"\n#include <numbers>\n#include <algorithm>\n'
    text += preamble
    text += '\n'
    tab = ''
    for n, k in enumerate(contracts):
        if k.glue is None:
            continue
        text += 'static void Run_%d(vd::Case& C) {\n%s\n}\n' % (n, k.glue)
        tab += '{"%s", Run_%d},\n' % (k.name, n)
    return text + 'int main() { return vd::Main({%s}); }\n' % tab


def build_driver(tmp, contracts, sources, preamble, extra=(), link=()):
    """one binary with every contract's glue, linked with the real sources;
    returns (binary, {contract name: error} for glue that does not compile)"""
    path = os.path.join(tmp, 'driver.cc')
    with open(path, 'w') as f:
        f.write(driver_text(contracts, preamble))
    jobs = [(path, os.path.join(tmp, 'driver.o'))]
    for s in sources:
        p = s if s.startswith('/') else os.path.join(CPP, s)
        jobs.append((p, os.path.join(tmp, hashlib.md5(s.encode()).hexdigest()[:10] + '.o')))
    with cf.ThreadPoolExecutor(8) as ex:
        rs = list(ex.map(lambda j: subprocess.run(CXX + list(extra) + ['-c', j[0], '-o', j[1]], capture_output=True), jobs))
        broken = {}
        for j, r in zip(jobs[1:], rs[1:]):
            if r.returncode:
                raise BuildError('%s: %s' % (j[0], r.stderr.decode()[:3000]))
        if rs[0].returncode:
            # which glue does not fit the current interfaces?
            def probe(k):
                q = os.path.join(tmp, 'probe_%s.cc' % re.sub(r'[^A-Za-z0-9_]', '_', k.name))
                with open(q, 'w') as f:
                    f.write(driver_text([k], preamble))
                r = subprocess.run(CXX + list(extra) + ['-fsyntax-only', q], capture_output=True)
                return r.returncode, r.stderr.decode()[:1500]
            gl = [k for k in contracts if k.glue is not None]
            for k, (rc, err) in zip(gl, ex.map(probe, gl)):
                if rc:
                    broken[k.name] = err
            if len(broken) == len(gl):
                raise BuildError('driver: ' + rs[0].stderr.decode()[:3000])
            with open(path, 'w') as f:
                f.write(driver_text([k for k in gl if k.name not in broken], preamble))
            r = subprocess.run(CXX + list(extra) + ['-c', path, '-o', jobs[0][1]], capture_output=True)
            if r.returncode:
                raise BuildError('driver: ' + r.stderr.decode()[:3000])
    exe = os.path.join(tmp, 'driver')
    r = subprocess.run(['g++', '-fsanitize=address,undefined', '-fopenmp'] + [j[1] for j in jobs] + ['-o', exe, '-Wl,--as-needed'] + list(link) + LIBS, capture_output=True)
    if r.returncode:
        raise BuildError('link: ' + r.stderr.decode()[:3000])
    return exe, broken


def fmt(x):
    if isinstance(x, bool):
        return '1' if x else '0'
    return repr(float(x))


def case_text(K, cid, case):
    out = ['case %s %s' % (cid, K.name)]
    for n, x in vars(case['v']).items():
        if n in K.reals:
            out.append('r %s %s' % (n, fmt(x)))
        elif isinstance(x, str):
            out.append('s %s %s' % (n, x.replace('\\', '\\\\').replace('\n', '\\n')))
        else:
            out.append('i %s %d' % (n, int(x)))
    for n, (s, vals) in case['arr'].items():
        if K.sorts.get(n, 'r') in ('i', 'b'):
            out.append('l %s %d %s' % (n, len(vals), ' '.join(str(int(x)) for x in vals)))
        else:
            out.append('d %s %d %s' % (n, len(vals), ' '.join(fmt(x) for x in vals)))
    out.append('run')
    return '\n'.join(out) + '\n'


ENV = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:abort_on_error=0:allocator_may_return_null=1', UBSAN_OPTIONS='print_stacktrace=0',
           OMP_NUM_THREADS='1')


def run_driver(exe, text, timeout=120):
    try:
        r = subprocess.run([exe], input=text.encode(), capture_output=True, timeout=timeout, env=ENV)
        return r.returncode, r.stdout.decode(errors='replace'), r.stderr.decode(errors='replace')
    except subprocess.TimeoutExpired as e:
        return 'timeout', (e.stdout or b'').decode(errors='replace'), 'timeout'


def parse_out(txt):
    res = {}
    cur = None
    for l in txt.split('\n'):
        w = l.split(' ')
        if w[0] == 'begin':
            cur = w[1]
            d = {}
        elif w[0] == 'd' and cur is not None:
            d[w[1]] = [float(x) for x in w[3:]]
        elif w[0] == 'end' and cur is not None:
            res[cur] = d
            cur = None
    return res, cur


def close(a, b, rtol, scale):
    if a is None:
        return True
    if isinstance(a, bool):
        a = float(a)
    if math.isnan(a) or math.isnan(b):
        return math.isnan(a) and math.isnan(b)
    if math.isinf(a) or math.isinf(b):
        return a == b
    return abs(a - b) <= rtol * (abs(a) + scale)


def compare(K, exp, got):
    bad = []
    for n, e in exp.items():
        g = got.get(n)
        if g is None:
            bad.append((n, 'missing', None, None))
            continue
        if len(g) != len(e):
            bad.append((n, 'length', len(e), len(g)))
            continue
        fin = [abs(x) for x in e if x is not None and not isinstance(x, bool) and math.isfinite(x)]
        sc = (sum(fin) / len(fin) if fin else 0) + 1e-3
        sc = max(sc, getattr(K, 'scale', 0))
        for i, (x, y) in enumerate(zip(e, g)):
            if not close(x, y, K.rtol, sc):
                bad.append((n, i, x, y))
                break
    return bad


class Exec:
    """concrete execution of the contracts on the compiled code"""

    def __init__(self, exe):
        self.exe = exe
        self.count = 0
        self.nontrivial = set()

    def check(self, K, cases):
        """returns (case, mismatch description) or None"""
        todo = []
        for c in cases:
            try:
                e = K.expected(c)
            except ZeroDivisionError:
                continue
            todo.append((c, e))
        if not todo:
            return None
        i = 0
        while i < len(todo):
            text = ''.join(case_text(K, j, todo[j][0]) for j in range(i, len(todo)))
            rc, out, err = run_driver(self.exe, text)
            res, dangling = parse_out(out)
            for j in range(i, len(todo)):
                c, e = todo[j]
                if str(j) in res:
                    self.count += 1
                    self.nontrivial.add(hashlib.md5(case_text(K, 0, c).encode()).hexdigest())
                    bad = compare(K, e, res[str(j)])
                    if bad:
                        return c, describe(K, bad, e)
                else:
                    if rc == 'timeout':
                        return None if dangling is None else (c, 'no answer within the time limit')
                    return c, 'the run ended abnormally (exit %s): %s' % (rc, err.strip()[:1500])
            i = len(todo)
        return None


def describe(K, bad, e):
    n, i, x, y = bad[0]
    return '%s: element %s expected %r, code produced %r (%d outputs differ)' % (n, i, x, y, len(bad))


def prove_group(modname, idxs, tier):
    """worker: symbolic proofs for contracts sharing one source"""
    smt.STATS_reset() if hasattr(smt, 'STATS_reset') else None
    sys.setrecursionlimit(20000)
    mod = importlib.import_module(modname)
    ks = mod.CONTRACTS
    out = []
    tu = None
    err = None
    for i in idxs:
        K = ks[i]
        if getattr(K, 'bounded', None):
            out.append({'i': i, 'status': 'bounded', 'why': K.bounded, 'obls': [], 'seeds': [], 'wall': 0, 'n': 0, 'ok': 0, 'stats': {}, 'inlined': [], 'lib': [], 'cc': [], 'rets': 0, 'kinds': {}, 'vac': ''})
            continue
        if tu is None and err is None:
            try:
                tu = K.load() if hasattr(K, 'load') else cfront.TU(K.src, K.filt, K.is_text)
            except Exception as e:
                err = str(e)[:1500]
        s0 = dict(smt.STATS)
        if err is not None:
            out.append({'i': i, 'status': 'front', 'why': err, 'obls': [], 'seeds': [], 'wall': 0, 'n': 0, 'ok': 0, 'stats': {}, 'inlined': [], 'lib': [], 'cc': [], 'rets': 0, 'kinds': {}, 'vac': ''})
            continue
        try:
            r = K.symbolic(tu)
        except Exception as e:
            out.append({'i': i, 'status': 'unsupported', 'why': traceback.format_exc()[-1200:], 'obls': [], 'seeds': [], 'wall': 0, 'n': 0, 'ok': 0, 'stats': {}, 'inlined': [], 'lib': [], 'cc': [], 'rets': 0, 'kinds': {}, 'vac': ''})
            continue
        kinds = {}
        for o in r.obls:
            kinds[o.kind] = kinds.get(o.kind, 0) + 1
        bad = []
        for o in r.obls:
            if o.status != 'discharged' and len(bad) < 12:
                inf = {k: str(x)[:1200] for k, x in (o.info or {}).items() if k not in ('ctx',)}
                bad.append({'kind': o.kind, 'desc': str(o.desc)[:400], 'status': o.status, 'where': str(o.where), 'info': inf})
        seeds = []
        if r.status != 'proved':
            try:
                seeds = r.seeds(K)
            except Exception:
                pass
        st = {k: smt.STATS[k] - s0.get(k, 0) for k in smt.STATS}
        out.append({'i': i, 'status': r.status, 'why': r.why, 'obls': bad, 'seeds': seeds, 'wall': r.wall, 'n': len(r.obls),
                    'ok': sum(1 for o in r.obls if o.status == 'discharged'), 'stats': st, 'inlined': r.inlined, 'lib': r.lib,
                    'cc': r.called_contracts, 'rets': r.rets, 'kinds': kinds, 'vac': r.vacuity})
    return out


ASSUMPTIONS = [
    'double arithmetic is treated as exact real arithmetic (rounding, overflow to infinity and NaN are outside the proofs; the compiled replay uses real doubles)',
    'int/long arithmetic is treated as mathematical integers (no wrap-around)',
    'distinct array arguments and distinct containers do not alias',
    'OpenMP pragmas and mutexes are ignored: each function is verified as sequential code',
    'the verification-condition generator in /verif/vc (term algebra, sum normalisation, symbolic execution of the clang AST) and z3 are trusted',
    'models of the C++ standard library, Eigen and absl calls listed under library_models are trusted',
    'logging calls have no effect; absl CHECK aborts when its condition is false (shims/absl/log)',
]


def load_known():
    p = os.path.join(VERIF, 'known_findings.json')
    try:
        return json.load(open(p))
    except Exception:
        return {'findings': [], 'fixed': []}


def run_property(pid, modname, tier=None, seed=None):
    t0 = time.time()
    tier = tier or os.environ.get('VERIF_TIER', 'quick')
    seed = int(seed if seed is not None else os.environ.get('VERIF_SEED', '1') or 1)
    sys.path.insert(0, VERIF)
    mod = importlib.import_module(modname)
    ks = mod.CONTRACTS
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    tmp = tempfile.mkdtemp(prefix='vc_%s_' % pid)
    try:
        return _run(pid, modname, mod, ks, tier, seed, tmp, t0)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def _run(pid, modname, mod, ks, tier, seed, tmp, t0):
    groups = {}
    for i, k in enumerate(ks):
        groups.setdefault((k.src, k.filt, getattr(k, 'group', None)), []).append(i)
    # split big groups so that the pool is used
    tasks = []
    chunk = getattr(mod, 'CHUNK', 4)
    for g, idxs in groups.items():
        for a in range(0, len(idxs), chunk):
            tasks.append(idxs[a:a + chunk])
    pool = cf.ProcessPoolExecutor(min(8, max(1, len(tasks))), mp_context=mp.get_context('spawn'))
    futs = [pool.submit(prove_group, modname, t, tier) for t in tasks]
    exe = None
    build_err = None
    broken = {}
    if any(k.glue is not None for k in ks):
        try:
            exe, broken = build_driver(tmp, ks, mod.SOURCES, mod.PREAMBLE, getattr(mod, 'CXXFLAGS', ()), getattr(mod, 'LINKFLAGS', ()))
        except BuildError as e:
            build_err = str(e)
    ex = Exec(exe)
    violations = []
    known = load_known()
    kf_hit = []
    report = []
    samples = []
    # executable sanity check of every contract on the real code
    runs = {}
    mult = 1 if tier == 'quick' else 10

    def concrete(K, cases):
        if K.glue is None:
            if hasattr(K, 'run_concrete'):
                ex.count += len(cases)
                return K.run_concrete(cases)
            return None
        if exe is None or K.name in broken:
            return None
        return ex.check(K, cases)

    for i, K in enumerate(ks):
        if K.glue is None and not hasattr(K, 'run_concrete'):
            continue
        if (exe is None or K.name in broken) and K.glue is not None:
            continue
        rng = random.Random('%s-%s-%d' % (K.name, seed, 7))
        cases = []
        for _ in range(K.cases * mult):
            c = K.make_case(rng)
            if c is not None:
                cases.append(c)
        n0 = ex.count
        hit = concrete(K, cases)
        runs[i] = ex.count - n0
        if hit:
            violations.append((K, hit[0], hit[1], None))
    results = {}
    budget = 780 if tier == 'quick' else 3000
    for f in futs:
        try:
            for r in f.result(timeout=max(5, budget - (time.time() - t0))):
                results[r['i']] = r
        except Exception as e:
            pass
    for p in list(getattr(pool, '_processes', {}).values()):
        try:
            p.kill()
        except Exception:
            pass
    pool.shutdown(wait=False, cancel_futures=True)
    undecided = []
    tot = ok = 0
    stats = {}
    libs = set()
    for i, K in enumerate(ks):
        r = results.get(i)
        if r is None:
            r = {'status': 'unknown', 'why': 'proof worker did not answer within the time limit', 'obls': [], 'seeds': [], 'n': 0, 'ok': 0,
                 'wall': 0, 'stats': {}, 'inlined': [], 'lib': [], 'cc': [], 'rets': 0, 'kinds': {}, 'vac': ''}
        tot += r['n']
        ok += r['ok']
        libs.update(r['lib'])
        for k, x in r['stats'].items():
            stats[k] = stats.get(k, 0) + x
        entry = {'contract': K.name, 'function': (K.cls + '::' if K.cls else '') + (K.func or ''), 'source': K.src if not K.is_text else getattr(K, 'srcname', 'header'),
                 'status': r['status'], 'obligations': r['n'], 'discharged': r['ok'], 'by_kind': r['kinds'], 'return_paths': r['rets'],
                 'solver_calls': r['stats'].get('queries', 0), 'solver_s': round(r['stats'].get('time', 0), 3), 'wall_s': round(r['wall'], 2),
                 'inlined_callees': r['inlined'][:40], 'callee_contracts': r['cc'], 'vacuity': r['vac'],
                 'concrete_runs': runs.get(i, 0)}
        if K.notes:
            entry['notes'] = K.notes
        if r['status'] != 'proved':
            entry['why'] = r['why'][:600]
            entry['undischarged'] = r['obls'][:6]
        report.append(entry)
        if r['status'] in ('proved', 'bounded'):
            if r['status'] == 'bounded':
                undecided.append(K.name)
                if K.glue is not None and (exe is None or K.name in broken):
                    violations.append((K, None, 'the bounded stand-in could not be built against the current interfaces', r))
            continue
        # counterexample replay on the compiled code
        if any(x[0] is K for x in violations):
            for n, x in enumerate(violations):
                if x[0] is K:
                    violations[n] = (x[0], x[1], x[2], r)
            continue
        cases = []
        rng = random.Random('%s-%s-seed' % (K.name, seed))
        for ov, el in r['seeds']:
            for _ in range(3):
                c = K.make_case(rng, {k: x for k, x in ov.items()}, el)
                if c is not None:
                    cases.append(c)
        for _ in range(K.cases * 8):
            c = K.make_case(rng)
            if c is not None:
                cases.append(c)
        hit = concrete(K, cases)
        entry['stand_in'] = 'bounded: %d concrete executions against the contract (sizes and values sampled as declared in the contract)' % len(cases)
        if hit:
            violations.append((K, hit[0], hit[1], r))
            continue
        undecided.append(K.name)
        ref = [o for o in r['obls'] if o['status'] == 'refuted']
        blind = K.glue is not None and (exe is None or K.name in broken)
        if ref or (blind and r['status'] != 'proved'):
            # the verifier rejects an obligation and no run of the compiled
            # code shows it: reported as such
            o = ref[0] if ref else {'kind': r['status'], 'desc': r['why'][:300], 'where': ''}
            violations.append((K, None, 'obligation not discharged: %s %s (line %s)' % (o['kind'], o['desc'], o['where']), r))
    wall = time.time() - t0
    # known findings
    final = []
    for v in violations:
        K = v[0]
        kf = [f for f in known.get('findings', []) if f['property'] == pid and f['contract'] == K.name and f['match'] in v[2]]
        if kf:
            kf_hit.append(kf[0])
        else:
            final.append(v)
    for K, case, what, r in violations[:0]:
        pass
    proved = sum(1 for e in report if e['status'] == 'proved')
    level = 'proof'
    cov = {'obligations': tot, 'discharged': ok, 'checker_cmd': 'python3-vt check.py %s' % pid,
           'trusted_base': ['vc (this repository): clang-AST verification-condition generator', 'clang 18 front end', 'z3 %s' % smt.z3.get_version_string(), 'models: ' + ', '.join(sorted(libs))[:1500]],
           'functions_under_contract': len(ks), 'functions_proved': proved, 'functions_bounded_only': undecided,
           'solver_queries': stats.get('queries', 0), 'solver_s': round(stats.get('time', 0), 2),
           'concrete_replay_runs': ex.count, 'concrete_replay_distinct': len(ex.nontrivial), 'contracts': report}
    if broken:
        cov['replay_glue_not_compiling'] = broken
    if build_err:
        cov['replay_build_error'] = build_err[:1500]
    ev = {'property': pid, 'tier': tier, 'seed': seed, 'level': level, 'coverage': cov,
          'assumptions': ASSUMPTIONS + list(getattr(mod, 'ASSUME', [])), 'wall_s': round(wall, 2), 'violations': len(final)}
    with open(os.path.join(VERIF, 'evidence', pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, default=str)
    for e in report:
        print('%-34s %-11s obligations %d/%d  concrete runs %d  %.1fs %s' % (e['contract'], e['status'], e['discharged'], e['obligations'], e['concrete_runs'], e['wall_s'], (e.get('why') or '')[:200].replace('\n', ' ')))
    for f in kf_hit:
        print('KNOWN-FINDING: property=%s %s' % (pid, f['what']))
    if final:
        for n, (K, case, what, r) in enumerate(final):
            path = os.path.join(VERIF, 'evidence', '%s_%s.replay.json' % (pid, K.name))
            with open(path, 'w') as f:
                json.dump({'property': pid, 'contract': K.name, 'function': K.func, 'mismatch': what,
                           'case': {'values': {k: x for k, x in vars(case['v']).items()}, 'arrays': case['arr']} if case else None,
                           'stdin_for_driver': case_text(K, 0, case)[:200000] if case and K.glue is not None else None,
                           'failed_obligations': (r or {}).get('obls', []), 'verifier': (r or {}).get('why', '')}, f, indent=1, default=str)
            print('  %s: %s' % (K.name, what[:400]))
            print('VIOLATION property=%s replay=%s%s' % (pid, path, '' if case else ' no-failing-input-found'))
        return 1
    if build_err is not None:
        print('replay driver did not build: %s' % build_err[:1500])
    print('property %s: %d/%d contracts proved, %d obligations, %.1f s' % (pid, proved, len(ks), tot, wall))
    return 0
