#!/usr/bin/env python3
"""Runs the monitor of one property against /repo's current working tree.

  python3 check.py C01              quick tier   (VERIF_TIER=thorough for the deep one)
  python3 check.py --setup          checks the toolchain
  python3 check.py --replay FILE    re-runs the case stored in a replay file

Exit 0: held on everything run.  1: violation (VIOLATION line).  2: the check itself failed.
"""
import concurrent.futures as cf
import hashlib
import json
import os
import re
import shutil
import struct
import subprocess
import sys
import time

ROOT = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('EMBC_REPO', '/repo')
BUILD = os.path.join(ROOT, 'build')
REPLAYS = os.path.join(ROOT, 'replays')
EVID = os.path.join(ROOT, 'evidence')
WORKERS = 8
CPU_CASE = 40          # seconds of CPU for one case before it counts as a hang candidate
CPU_CASE_RETRY = 120
WALL = 780             # seconds of wall clock for all workers of one phase (inconclusive if exceeded)

SAN = {
    'asan': ['-O1', '-fsanitize=address,undefined', '-fno-sanitize-recover=all', '-fno-sanitize=function',
             '-fno-sanitize-address-use-after-scope'],
    'msan': ['-O1', '-fsanitize=memory', '-fno-sanitize-recover=all', '-DVH_MSAN=1'],
}
ENV = dict(os.environ,
           ASAN_OPTIONS='detect_leaks=0:abort_on_error=0:exitcode=99:hard_rss_limit_mb=3500:detect_stack_use_after_return=0'
                        ':allocator_may_return_null=1:symbolize=1',
           UBSAN_OPTIONS='print_stacktrace=1:exitcode=99',
           MSAN_OPTIONS='exitcode=99:allocator_may_return_null=1')


class CheckError(Exception):
    pass


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', **kw)


def find(d, suffix):
    out = []
    for base, dirs, names in os.walk(d):
        dirs.sort()
        out += [os.path.join(base, n) for n in sorted(names) if n.endswith(suffix)]
    return out


def gen_config(dst, floats=False):
    """The configuration header cmake would generate, made from /repo's template."""
    version = '0.2.0'
    m = re.search(r'project\(EMBC\s+VERSION\s+([0-9.]+)', open(os.path.join(REPO, 'CMakeLists.txt')).read())
    if m:
        version = m.group(1)
    major, minor, patch = (version.split('.') + ['0', '0'])[:3]
    t = open(os.path.join(REPO, 'src', 'config.h.in')).read()
    for k, v in (('EMBC_PLATFORM', 'STDLIB'), ('PROJECT_PREFIX', 'EMBC'), ('PROJECT_VERSION_MAJOR', major),
                 ('PROJECT_VERSION_MINOR', minor), ('PROJECT_VERSION_PATCH', patch)):
        t = t.replace('@%s@' % k, v)
    if floats:      # the optional float parser
        t = re.sub(r'(#define\s+EMBC_CSTR_FLOAT_ENABLE\s+)0', r'\g<1>1', t)
    os.makedirs(os.path.join(dst, 'embc'), exist_ok=True)
    with open(os.path.join(dst, 'embc', 'config.h'), 'w') as f:
        f.write(t)


def build(pid, san):
    d = os.path.join(BUILD, '%s-%s' % (pid, san))
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    h = os.path.join(ROOT, 'harness')
    low = pid.lower()
    srcs = [s for s in find(os.path.join(REPO, 'src'), '.c')]
    own = [os.path.join(h, 'vh.c'), os.path.join(h, low + '.c')]
    own += [os.path.join(h, n) for n in sorted(os.listdir(h)) if n.startswith(low + '_') and n.endswith('.c')]
    text = open(own[1]).read()
    gen_config(os.path.join(d, 'include'), 'VH_USE_FLOAT' in text)
    if 'VH_NO_LIB' in text or 'VH_USE_LIB' not in text:   # lib.c defines the host-side fatal handler
        srcs = [s for s in srcs if os.path.basename(s) != 'lib.c']
    if 'VH_USE_TINYPRINTF' in text:
        srcs.append(os.path.join(REPO, 'third-party', 'tinyprintf', 'tinyprintf.c'))
    base = ['clang', '-std=gnu99', '-g', '-fno-omit-frame-pointer', '-w', '-I' + os.path.join(d, 'include'),
            '-I' + os.path.join(REPO, 'include'), '-I' + os.path.join(REPO, 'third-party', 'uthash', 'src'),
            '-I' + os.path.join(REPO, 'third-party', 'tinyprintf'), '-I' + os.path.join(REPO, 'src'), '-I' + h] + SAN[san]
    jobs, objs = [], []
    for i, s in enumerate(srcs + own):
        o = os.path.join(d, '%02d_%s.o' % (i, os.path.basename(s)[:-2]))
        objs.append(o)
        # the MSan build also evaluates every log statement of the library
        extra = ['-DEMBC_LOG_LEVEL=EMBC_LOG_LEVEL_ALL'] if san == 'msan' and s.startswith(REPO + os.sep) else []
        jobs.append(base + extra + ['-D__FILENAME__="%s"' % os.path.basename(s), '-c', s, '-o', o])
    with cf.ThreadPoolExecutor(WORKERS) as ex:
        for cmd, r in zip(jobs, ex.map(sh, jobs)):
            if r.returncode:
                raise CheckError('compile failed: %s\n%s' % (' '.join(cmd), r.stdout[-4000:]))
    exe = os.path.join(d, 'run')
    r = sh(base + objs + ['-o', exe, '-lm'])
    if r.returncode:
        raise CheckError('link failed\n' + r.stdout[-4000:])
    return exe, d


def build_py(pid, san):
    """The Python bindings: a copy of /repo/py over a sanitized shared library, and the C view the harness compares with."""
    d = os.path.join(BUILD, '%s-%s' % (pid, san))
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    h = os.path.join(ROOT, 'harness')
    gen_config(os.path.join(d, 'include'))
    shutil.copytree(os.path.join(REPO, 'py'), os.path.join(d, 'py'), symlinks=True,
                    ignore=shutil.ignore_patterns('__pycache__', '*.dll', '*.so', 'test'))
    base = ['clang', '-std=gnu99', '-g', '-fno-omit-frame-pointer', '-w', '-fPIC', '-shared-libasan', '-I' + os.path.join(d, 'include'),
            '-I' + os.path.join(REPO, 'include'), '-I' + os.path.join(REPO, 'third-party', 'uthash', 'src'),
            '-I' + os.path.join(REPO, 'third-party', 'tinyprintf'), '-I' + os.path.join(REPO, 'src')] + SAN[san]
    jobs, objs = [], []
    for i, s in enumerate(find(os.path.join(REPO, 'src'), '.c')):
        o = os.path.join(d, '%02d_%s.o' % (i, os.path.basename(s)[:-2]))
        objs.append(o)
        # the log of buffer.c is the input of buffer_log_check
        extra = ['-DEMBC_LOG_LEVEL=EMBC_LOG_LEVEL_ALL'] if s.endswith('memory/buffer.c') else []
        jobs.append(base + extra + ['-D__FILENAME__="%s"' % os.path.basename(s), '-c', s, '-o', o])
    so = os.path.join(d, 'py', 'embc', 'libembc.dll')
    with cf.ThreadPoolExecutor(WORKERS) as ex:
        for cmd, r in zip(jobs, ex.map(sh, jobs)):
            if r.returncode:
                raise CheckError('compile failed: %s\n%s' % (' '.join(cmd), r.stdout[-4000:]))
    for cmd in (base + ['-shared', '-Wl,-soname,libembc.dll'] + objs + ['-o', so, '-lm'],
                base + ['-shared', os.path.join(h, pid.lower() + '_view.c'), '-o', os.path.join(d, 'libview.so'), so,
                        '-Wl,-rpath,$ORIGIN/py/embc']):
        r = sh(cmd)
        if r.returncode:
            raise CheckError('link failed: %s\n%s' % (' '.join(cmd), r.stdout[-4000:]))
    shutil.copy(os.path.join(h, pid.lower() + '.py'), d)
    rt = sh(['clang', '-print-file-name=libclang_rt.asan-x86_64.so']).stdout.strip()
    exe = os.path.join(d, 'run')
    with open(exe, 'w') as f:
        f.write('#!/bin/sh\nLD_PRELOAD=%s PYTHONMALLOC=malloc PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 exec %s %s "$@"\n'
                % (rt, sys.executable, os.path.join(d, pid.lower() + '.py')))
    os.chmod(exe, 0o755)
    return exe, d


def crash_key(rc, err):
    m = re.search(r'ERROR: AddressSanitizer: ([\w-]+)', err)
    if m:
        return 'asan:' + m.group(1)
    m = re.search(r'runtime error: (.*)', err)
    if m:
        return 'ubsan:' + re.sub(r'0x[0-9a-f]+|-?\d+', 'N', m.group(1))[:80].strip()
    m = re.search(r'WARNING: MemorySanitizer: ([\w-]+)', err)
    if m:
        return 'msan:' + m.group(1)
    if 'hard rss limit' in err:
        return 'memory-exhaustion'
    return 'crash:rc%d' % rc


def run_one(exe, out, args, wall, cpu=CPU_CASE):
    """-> None, or a violation dict. Raises CheckError when inconclusive."""
    for suffix in ('', '.fail', '.hang', '.hash', '.progress'):
        if os.path.exists(out + suffix):
            os.remove(out + suffix)
    cmd = [exe, '--out', out, '--cpu', str(cpu)] + args
    err_path = out + '.err'
    with open(err_path, 'w') as ef:
        try:
            rc = subprocess.run(cmd, stdout=ef, stderr=ef, env=ENV, timeout=max(5, wall)).returncode
        except subprocess.TimeoutExpired:
            raise CheckError('wall-clock limit reached: %s' % ' '.join(cmd))
    if rc == 0:
        return None
    err = open(err_path, errors='replace').read()
    case = None
    if os.path.exists(out + '.progress'):
        b = open(out + '.progress', 'rb').read(8)
        if len(b) == 8:
            case = struct.unpack('<Q', b)[0]
    if rc == 77 and os.path.exists(out + '.fail'):
        t = open(out + '.fail', errors='replace').read()
        key = re.search(r'^KEY (.*)$', t, re.M).group(1)
        return dict(kind='monitor', key=key, case=case, text=t)
    if rc == 78 and os.path.exists(out + '.hang'):
        return dict(kind='hang', key='hang', case=int(open(out + '.hang').read() or 0), text='no progress within CPU limit')
    if rc == 2:
        raise CheckError('harness error: %s\n%s' % (' '.join(cmd), err[-2000:]))
    if rc == -9:
        raise CheckError('killed: %s' % ' '.join(cmd))
    return dict(kind='crash', key=crash_key(rc, err), case=case, text='exit %d\n%s' % (rc, err[:6000]))


def known_findings(pid):
    out = {}
    p = os.path.join(ROOT, 'known_findings.txt')
    if not os.path.exists(p):
        return out
    for line in open(p):
        m = re.match(r'finding: property=(\S+) scenario=(\S+) key=(\S+) (.*)$', line.strip())
        if m and m.group(1) == pid:
            out[(m.group(2), m.group(3))] = m.group(4)
    return out


def report(pid, san, seed, v, args):
    os.makedirs(REPLAYS, exist_ok=True)
    name = '%s-%s-%s.txt' % (pid, san, hashlib.sha1((v['key'] + str(args)).encode()).hexdigest()[:10])
    path = os.path.join(REPLAYS, name)
    with open(path, 'w') as f:
        f.write('PROPERTY %s\nSANITIZER %s\nARGS %s\nKEY %s\n\n%s\n' % (pid, san, json.dumps(args), v['key'], v['text']))
    print('%s: %s' % (v['key'], (re.search(r'^MSG (.*)$', v['text'], re.M) or re.search(r'(.*)', v['text'])).group(1)))
    print('VIOLATION property=%s replay=%s' % (pid, path))
    sys.stdout.flush()


def confirm_hang(exe, out, args, v, left):
    if v and v['kind'] == 'hang':
        return run_one(exe, out + '.again', args, left, cpu=CPU_CASE_RETRY)
    return v


def check(pid):
    t0 = time.time()
    tier = os.environ.get('VERIF_TIER', 'quick')
    tier = 'thorough' if tier == 'thorough' else 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    thorough = ['--thorough'] if tier == 'thorough' else []
    python = os.path.exists(os.path.join(ROOT, 'harness', pid.lower() + '.py'))
    text = open(os.path.join(ROOT, 'harness', pid.lower() + ('.py' if python else '.c'))).read()
    sans = ['asan'] + ([] if python or 'VH_NO_MSAN' in text else ['msan'])
    m = re.search(r'VH_MSAN_DIVIDE\s+(\d+)', text)
    msan_divide = int(m.group(1)) if m else 8
    wall = WALL if tier == 'quick' else 36000
    known = known_findings(pid)
    seen_known = []
    violations = []
    observed_in = {}
    total = dict(evaluations=0, counters={}, samples=[], rule='')
    hashes = set()
    scen_run = 0
    errors = []
    exes = {}
    with cf.ThreadPoolExecutor(2) as ex:
        for s, e in zip(sans, ex.map(lambda s: (build_py if python else build)(pid, s), sans)):
            exes[s] = e

    def left():
        return wall - (time.time() - t0)

    for san in sans:
        exe, d = exes[san]
        r = sh([exe, '--list'], env=ENV)
        if r.returncode:
            raise CheckError('cannot list scenarios: ' + r.stdout)
        scenarios = r.stdout.split()
        jobs = [('s', s, ['--seed', str(seed), '--scenario', s] + thorough) for s in scenarios]
        div = ['--divide', str(msan_divide)] if san == 'msan' else []
        jobs += [('w', str(w), ['--seed', str(seed), '--workers', str(WORKERS), '--worker', str(w)] + thorough + div)
                 for w in range(WORKERS)]

        def do(job):
            try:
                return do_(job)
            except CheckError as e:
                errors.append(str(e))
                return dict(kind='error')

        def do_(job):
            kind, name, args = job
            out = os.path.join(d, '%s_%s.json' % (kind, name))
            v = run_one(exe, out, args, left())
            if v and v['kind'] == 'hang':
                a = args if kind == 's' else ['--seed', str(seed), '--only', str(v['case'])] + thorough
                v = confirm_hang(exe, out, a, v, left())
                if v is None:
                    raise CheckError('one case exceeded the CPU limit but finished when re-run (inconclusive)')
            return v

        with cf.ThreadPoolExecutor(WORKERS) as ex:
            results = list(ex.map(do, jobs))
        for (kind, name, args), v in zip(jobs, results):
            if v and v['kind'] == 'error':
                continue
            if kind == 's':
                scen_run += san == 'asan'
                if v is None:
                    if san == 'asan':
                        path = os.path.join(d, 's_%s.json' % name)
                        observed_in[name] = json.load(open(path))['counters'] if os.path.exists(path) else {}
                    continue
                what = known.get((name, v['key']))
                if what is not None:
                    if (name, v['key']) not in seen_known:
                        seen_known.append((name, v['key']))
                        print('KNOWN-FINDING: property=%s %s' % (pid, what))
                    continue
            elif v is None:
                o = os.path.join(d, 'w_%s.json' % name)
                j = json.load(open(o))
                if san == 'asan':
                    total['evaluations'] += j['evaluations']
                    total['rule'] = j['rule']
                    if len(total['samples']) < 3:
                        total['samples'] += j['samples'][:1]
                    b = open(o + '.hash', 'rb').read()
                    hashes.update(struct.unpack('<%dQ' % (len(b) // 8), b))
                    for k, n in j['counters'].items():
                        if k.startswith('max_'):
                            total['counters'][k] = max(total['counters'].get(k, 0), n)
                        else:
                            total['counters'][k] = total['counters'].get(k, 0) + n
                else:
                    total['counters']['msan_executions'] = total['counters'].get('msan_executions', 0) + j['evaluations']
                continue
            if kind == 'w' and v['case'] is not None:
                args = ['--seed', str(seed), '--only', str(v['case'])] + thorough
            violations.append((san, v, args))
        if violations or errors:
            break
    for san, v, args in violations[:5]:
        report(pid, san, seed, v, args)

    level = 'exploration'
    for c in json.load(open(os.path.join(ROOT, 'MANIFEST.json')))['checks']:
        if c['property'] == pid:
            level = c['level']
    cov = dict(evaluations=total['evaluations'], distinct_nontrivial=len(hashes), rule=total['rule'],
               samples=total['samples'], scenarios_run=scen_run, observed=total['counters'], observed_in_scenarios=observed_in)
    if seen_known:
        cov['known_findings_seen'] = ['%s %s' % k for k in seen_known]
    assumptions = [x.strip() for x in re.findall(r'^ \* ASSUME: (.*)$', text, re.M)]
    ev = dict(property=pid, tier=tier, seed=seed, level=level, coverage=cov, assumptions=assumptions,
              wall_s=round(time.time() - t0, 2), violations=len(violations))
    os.makedirs(EVID, exist_ok=True)
    with open(os.path.join(EVID, pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
        f.write('\n')
    for s in sans:
        shutil.rmtree(exes[s][1], ignore_errors=True)
    if violations:
        return 1
    if errors:
        raise CheckError(errors[0])
    if not hashes or not total['evaluations']:
        raise CheckError('nothing was observed')
    print('%s held: %d executions, %d distinct non-trivial, %d scenarios (%s, seed %d, %.1f s)' %
          (pid, total['evaluations'], len(hashes), scen_run, tier, seed, time.time() - t0))
    return 0


def replay(path):
    t = open(path).read()
    pid = re.search(r'^PROPERTY (\S+)', t, re.M).group(1)
    san = re.search(r'^SANITIZER (\S+)', t, re.M).group(1)
    args = json.loads(re.search(r'^ARGS (.*)$', t, re.M).group(1))
    python = os.path.exists(os.path.join(ROOT, 'harness', pid.lower() + '.py'))
    exe, d = (build_py if python else build)(pid, san)
    out = os.path.join(d, 'replay.json')
    v = run_one(exe, out, args, 600)
    print('held' if v is None else 'KEY %s\n%s' % (v['key'], v['text']))
    return 0 if v is None else 1


def main():
    a = sys.argv[1:]
    try:
        if a[:1] == ['--setup']:
            for tool in ('clang',):
                if not shutil.which(tool):
                    raise CheckError(tool + ' is missing')
            os.makedirs(BUILD, exist_ok=True)
            print('ready')
            return 0
        if a[:1] == ['--replay']:
            return replay(a[1])
        if len(a) == 1 and re.fullmatch(r'C\d\d', a[0]):
            return check(a[0])
        print(__doc__)
        return 2
    except CheckError as e:
        print('CHECK-ERROR: %s' % e)
        return 2


if __name__ == '__main__':
    sys.exit(main())
