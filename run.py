#!/usr/bin/env python3
"""Runs one property's monitors against /repo's working tree.

usage: run.py <property> [--replay FILE] [--keep]
Exit 0: held on everything explored; 1: VIOLATION line printed; anything else: the check itself failed.
"""
import concurrent.futures as cf
import json, os, re, shutil, signal, subprocess, sys, tempfile, time

ROOT = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
sys.path.insert(0, ROOT)
from checks import CHECKS  # noqa: E402

SEED = int(os.environ.get('VERIF_SEED', '1') or '1')
TIER = os.environ.get('VERIF_TIER', 'quick')
NCPU = os.cpu_count() or 4

BASE = ['-std=c++17', '-w']
VARIANTS = {
    # memory errors, undefined behaviour: reported and fatal
    'asan': ['clang++', '-O0', '-g1', '-fsanitize=address,undefined,float-cast-overflow', '-fno-sanitize=vptr', '-fno-sanitize-recover=all',
             '-D_GLIBCXX_ASSERTIONS'],
    'plain': ['clang++', '-O1'],
    'tsan': ['clang++', '-O1', '-g1', '-fsanitize=thread'],
    'o0': ['clang++', '-O0'],
    'vg': ['clang++', '-O0', '-g1'],
}
# uninitialised values (and invalid accesses of the uninstrumented build)
PREFIX = {'vg': ['valgrind', '-q', '--error-exitcode=68', '--leak-check=no', '--exit-on-first-error=yes', '--num-callers=30']}
LIBS = ['-lpagmo', '-ltbb', '-lboost_serialization', '-lpthread']
ENV = dict(os.environ)
ENV.update(
    ASAN_OPTIONS='exitcode=66:detect_leaks=1:allocator_may_return_null=1:detect_stack_use_after_return=1:handle_abort=1',
    UBSAN_OPTIONS='print_stacktrace=1:exitcode=66:halt_on_error=1',
    TSAN_OPTIONS='exitcode=67:halt_on_error=1:report_signal_unsafe=0:history_size=4',
    LSAN_OPTIONS='exitcode=66',
)


def die(msg):
    print('CHECK-ERROR: ' + msg)
    sys.stdout.flush()
    os._exit(3)


def config_hpp(d):
    """config.hpp is generated by cmake from config.hpp.in in the real build."""
    os.makedirs(d + '/dcgp', exist_ok=True)
    ver = '1.6.1'
    try:
        m = re.search(r'project\s*\(\s*dcgp\s+VERSION\s+([0-9.]+)', open(REPO + '/CMakeLists.txt').read(), re.I)
        if m:
            ver = m.group(1)
    except OSError:
        pass
    a = (ver.split('.') + ['0', '0'])[:2]
    with open(d + '/dcgp/config.hpp', 'w') as o:
        o.write('#ifndef DCGP_CONFIG_HPP\n#define DCGP_CONFIG_HPP\n#define DCGP_VERSION_STRING "%s"\n'
                '#define DCGP_VERSION_MAJOR %s\n#define DCGP_VERSION_MINOR %s\n#endif\n' % (ver, a[0], a[1]))


def includes(work, variant):
    inc = []
    if variant == 'tsan':
        inc += ['-I' + ROOT + '/shim_tbb']
    inc += ['-I' + ROOT + '/lib', '-I' + ROOT + '/shim', '-I' + REPO + '/include', '-I' + work + '/inc', '-I/usr/include/eigen3']
    return inc


def compile_obj(work, src, variant, extra=()):
    name = os.path.basename(src).rsplit('.', 1)[0] + '.' + variant
    obj = work + '/' + name + '.o'
    cmd = VARIANTS[variant] + BASE + list(extra) + includes(work, variant) + ['-c', src, '-o', obj]
    t = time.time()
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode != 0:
        return None, 'cannot compile %s (%s): %s' % (src, variant, r.stderr[:3000])
    return obj, time.time() - t


def build(work, jobs):
    """jobs: list of dict(src, variant, with=[(src, variant)...]) -> path of executables"""
    todo = {}
    for j in jobs:
        todo[(j['src'], j['variant'])] = j.get('extra', ())
        for s, v in j.get('link', ()):
            todo[(s, v)] = ()
    objs = {}
    with cf.ThreadPoolExecutor(NCPU) as ex:
        fs = {k: ex.submit(compile_obj, work, ROOT + '/drivers/' + k[0], k[1], e) for k, e in todo.items()}
        for k, f in fs.items():
            o, info = f.result()
            if o is None:
                die(info)
            objs[k] = o
    exes = {}

    def link(j):
        exe = work + '/' + j['src'].rsplit('.', 1)[0] + '.' + j['variant'] + '.x'
        cmd = VARIANTS[j['variant']] + [objs[(j['src'], j['variant'])]] + [objs[k] for k in map(tuple, j.get('link', ()))] + ['-o', exe] + LIBS
        r = subprocess.run(cmd, capture_output=True, text=True)
        return exe, r
    with cf.ThreadPoolExecutor(NCPU) as ex:
        for j, (exe, r) in zip(jobs, ex.map(link, jobs)):
            if r.returncode != 0:
                die('cannot link %s: %s' % (exe, r.stderr[:3000]))
            exes[(j['src'], j['variant'])] = exe
    return exes


def execute(exe, variant, out, offset, cases, only, timeout, cwd):
    cmd = PREFIX.get(variant, []) + [exe, '--seed', str(SEED), '--cases', str(cases), '--offset', str(offset), '--only', str(only), '--out', out,
           '--variant', variant, '--tier', TIER]
    try:
        os.unlink(out)
    except OSError:
        pass
    with open(out + '.stdout', 'wb') as so, open(out + '.stderr', 'wb') as se:
        p = subprocess.Popen(cmd, stdout=so, stderr=se, env=ENV, cwd=cwd, start_new_session=True)
        try:
            rc = p.wait(timeout)
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, signal.SIGKILL)
            p.wait()
            rc = 'timeout'
    try:
        prog = int(open(out + '.progress').read().strip() or -1)
    except (OSError, ValueError):
        prog = -1
    err = open(out + '.stderr', errors='replace').read()
    data = None
    try:
        data = json.load(open(out))
    except (OSError, ValueError):
        pass
    return dict(rc=rc, data=data, progress=prog, err=err)


def sanitizer_key(err, variant):
    m = re.search(r'ERROR: (AddressSanitizer|LeakSanitizer): ([\w-]+)', err)
    if m:
        kind = m.group(1) + ':' + m.group(2)
    else:
        m = re.search(r'runtime error: ([^\n]*)', err)
        if m:
            kind = 'UBSan:' + re.sub(r'[0-9a-fx]{3,}|-?\d+', 'N', m.group(1))[:70]
        else:
            m = re.search(r'WARNING: ThreadSanitizer: ([\w ]+)', err)
            kind = 'TSan:' + m.group(1).strip() if m else None
            if not kind and variant == 'vg':
                m = re.search(r'==\d+== (Conditional jump or move depends on uninit|Use of uninit|Invalid (?:read|write|free)|Syscall param)', err)
                kind = 'valgrind:' + m.group(1) if m else None
    if not kind:
        return None
    f = re.search(r'#\d+ [^\n]*?(/repo/include/[\w/.]+\.hpp|' + re.escape(REPO) + r'/include/[\w/.]+)', err)
    return kind + (' in ' + os.path.basename(f.group(1)) if f else '')


def main():
    prop = sys.argv[1]
    spec = CHECKS[prop]
    t0 = time.time()
    ev_dir = ROOT + '/evidence'
    os.makedirs(ev_dir, exist_ok=True)
    work = tempfile.mkdtemp(prefix='dcgpv_%s_' % prop)
    os.makedirs(work + '/inc')
    config_hpp(work + '/inc')
    viol = {}       # key -> dict(count, detail, driver, variant, case)
    errors = []
    tot = dict(evaluations=0, counters={}, samples=[])
    distinct = set()
    runs = []
    try:
        jobs, shards = [], []
        only = None
        if '--replay' in sys.argv:
            only = json.load(open(sys.argv[sys.argv.index('--replay') + 1]))
            globals()['SEED'] = only['seed']
        for d in spec['drivers']:
            for v, (nq, nt, nsh) in d['variants'].items():
                if only and (only['driver'] != d['src'] or only['variant'] != v):
                    continue
                jobs.append(dict(src=d['src'], variant=v, extra=d.get('extra', ()), link=[tuple(x) for x in d.get('link', ())]))
                n = nt if TIER == 'thorough' else nq
                if only:
                    shards.append((d['src'], v, 0, 1, only['case']))
                else:
                    per = (n + nsh - 1) // nsh
                    for s in range(nsh):
                        # sanitized runs use other cases than the plain ones
                        base = {'plain': 0, 'asan': 10000000, 'tsan': 20000000, 'o0': 30000000, 'vg': 40000000}[v]
                        shards.append((d['src'], v, base + s * per, per, -1))
        exes = build(work, jobs)
        t_build = time.time() - t0
        # workloads borrowed from other properties: only what the sanitizers report counts here
        memory_only = {d['src'] for d in spec['drivers'] if d.get('memory_only')}
        budget = spec.get('timeout', 400) if TIER == 'quick' else spec.get('timeout_thorough', 3000)
        deadline = t0 + (780 if TIER == 'quick' else 100000)

        def one(i, sh):
            src, v, off, n, o = sh
            cwd = '%s/run%d' % (work, i)
            os.makedirs(cwd)
            out = cwd + '/out.json'
            # all the runs together stay below the limit of a check
            limit = min(budget, deadline - time.time())
            if limit < 5:
                return sh, dict(rc='timeout', data=None, progress=-1, err='', slow=True)
            r = execute(exes[(src, v)], v, out, off, n, o, limit, cwd)
            if r['rc'] == -9:  # ended from outside (memory): once more, alone
                r = execute(exes[(src, v)], v, out, off, n, o, limit, cwd)
            if r['rc'] == 'timeout':
                case = r['progress']
                limit = min(max(60, budget / 4), deadline + 60 - time.time())
                if case < 0 or limit < 30:
                    r['slow'] = True
                    return sh, r
                r2 = execute(exes[(src, v)], v, out + '.2', 0, 1, case, limit, cwd)
                if r2['rc'] == 'timeout':
                    r['hang'] = True
                else:
                    r['slow'] = True
            return sh, r
        with cf.ThreadPoolExecutor(spec.get('parallel', NCPU)) as ex:
            for sh, r in ex.map(lambda a: one(*a), enumerate(shards)):
                src, v, off, n, o = sh
                runs.append(dict(driver=src, variant=v, cases=n, rc=r['rc'], evaluations=(r['data'] or {}).get('evaluations', 0)))

                def add(key, detail, case, cnt=1):
                    x = viol.setdefault(key, dict(count=0, detail=detail, driver=src, variant=v, case=case))
                    x['count'] += cnt
                d = r['data']
                if d:
                    tot['evaluations'] += d['evaluations']
                    distinct.update(d['distinct'])
                    for k, c in d['counters'].items():
                        tot['counters'][k] = tot['counters'].get(k, 0) + c
                    tot['samples'] += d['samples']
                    for x in d['violations'] if src not in memory_only else ():
                        m = re.match(r'case (\d+)', x['detail'])
                        add(x['key'], x['detail'], int(m.group(1)) if m else -1, x['count'])
                else:
                    # violations already found before the process died
                    for m in re.finditer(r'VH-VIOLATION key=(\S+) case (\d+): (.*)', r['err']) if src not in memory_only else ():
                        add(m.group(1), m.group(3), int(m.group(2)))
                if r['rc'] == 0 and d:
                    continue
                sk = sanitizer_key(r['err'], v)
                if r.get('hang'):
                    add('hang', 'case %d did not return within the time limit' % r['progress'], r['progress'])
                elif r.get('slow'):
                    errors.append('%s.%s ran out of its time limit' % (src, v))
                elif sk:
                    add('sanitizer ' + sk, 'case %d: %s' % (r['progress'], r['err'][-6000:]), r['progress'])
                elif isinstance(r['rc'], int) and r['rc'] < 0 and r['rc'] != -9:
                    add('crash signal %d' % -r['rc'], 'case %d: %s' % (r['progress'], r['err'][-3000:]), r['progress'])
                else:
                    errors.append('%s.%s exited with %s: %s' % (src, v, r['rc'], r['err'][-2000:]))
    finally:
        if '--keep' not in sys.argv:
            shutil.rmtree(work, ignore_errors=True)
        else:
            print('kept', work)
    # findings
    known = {}
    for line in open(ROOT + '/known_findings.txt'):
        m = re.match(r'finding: property=(\S+) key="([^"]*)" (.*)', line)
        if m and m.group(1) == prop:
            known[m.group(2)] = m.group(3).strip()
    for k, what in known.items():
        print('KNOWN-FINDING: property=%s %s' % (prop, what))
    new = {k: v for k, v in viol.items() if k not in known}
    # weakest accepted coverage: a monitor that saw nothing decides nothing
    floor = spec.get('floor', 1)
    if '--replay' not in sys.argv and not new and not errors and len(distinct) < floor:
        errors.append('only %d distinct non-trivial cases observed, at least %d expected' % (len(distinct), floor))
    ev = dict(property=prop, tier=TIER if TIER in ('quick', 'thorough') else 'quick', seed=SEED, level='exploration',
              coverage=dict(evaluations=tot['evaluations'], distinct_nontrivial=len(distinct), rule=spec['rule'],
                            samples=tot['samples'][:6] or ['(none)'], observed=tot['counters'], runs=runs,
                            build_s=round(t_build, 1), known_findings_seen=[k for k in viol if k in known]),
              assumptions=spec.get('assumptions', []) + COMMON_ASSUMPTIONS, wall_s=round(time.time() - t0, 2),
              violations=len(new))
    if '--replay' not in sys.argv:
        with open('%s/%s.json' % (ev_dir, prop), 'w') as o:
            json.dump(ev, o, indent=1)
            o.write('\n')
    if new:
        for i, (k, v) in enumerate(sorted(new.items())):
            path = '%s/%s.replay.%d.json' % (ev_dir, prop, i)
            if '--replay' not in sys.argv:
                with open(path, 'w') as o:
                    json.dump(dict(property=prop, key=k, seed=SEED, driver=v['driver'], variant=v['variant'], case=v['case'], count=v['count'],
                                   detail=v['detail'], rerun='python3 run.py %s --replay %s' % (prop, path)), o, indent=1)
            print('VIOLATION property=%s replay=%s' % (prop, path))
            print('  %s (%d times): %s' % (k, v['count'], v['detail'][:1500]))
        sys.stdout.flush()
        return 1
    if errors:
        print('CHECK-ERROR: ' + '\n'.join(errors))
        return 3
    print('OK property=%s evaluations=%d distinct_nontrivial=%d build=%.1fs wall=%.1fs' % (
        prop, tot['evaluations'], len(distinct), t_build, time.time() - t0))
    return 0


COMMON_ASSUMPTIONS = [
    'AuDi and SymEngine are not installable here: /verif/shim supplies stand-ins (truncated Taylor polynomials, expression strings); dcgp code is unmodified',
    'floating point agreement is judged against an independent reference with tolerances from injected rounding noise; ill conditioned values are not judged',
]
if __name__ == '__main__':
    sys.exit(main())
