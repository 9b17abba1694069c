#!/usr/bin/env python3
"""Build and run the check of one property: check.py Cnn [--thorough] [--replay FILE] [--only SCENARIO] [-v]"""
import sys, os, json, hashlib, subprocess, time, glob, fcntl, shutil, tempfile
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('EOPSI_REPO', '/repo')
H = os.path.join(VERIF, 'harness')
BUILD = os.path.join(VERIF, '.build')
CXX = 'g++'
SAN = ['-fsanitize=address', '-fsanitize=bounds,null,integer-divide-by-zero,return,unreachable,vla-bound', '-fno-sanitize-recover=all', '-fno-omit-frame-pointer']
SPECS = json.load(open(os.path.join(H, 'checks.json')))


class BuildError(Exception):
    pass


def digest(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else p.encode())
        h.update(b'\0')
    return h.hexdigest()[:24]


def tree_digest(root, exts):
    parts = []
    for d, dirs, files in os.walk(root):
        dirs.sort()
        for f in sorted(files):
            if f.endswith(exts):
                p = os.path.join(d, f)
                parts += [os.path.relpath(p, root), open(p, 'rb').read()]
    return digest(*parts)


def run(cmd):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        raise BuildError('%s\n%s' % (' '.join(cmd), r.stdout[-6000:]))


def compile_one(src, flags, key):
    """Object of src, cached by the content of everything it may include"""
    out = os.path.join(BUILD, 'obj', '%s-%s.o' % (os.path.basename(src).rsplit('.', 1)[0], digest(key, src, open(src, 'rb').read(), ' '.join(flags))))
    if not os.path.exists(out):
        tmp = out + '.%d' % os.getpid()
        run([CXX, *flags, '-c', src, '-o', tmp])
        os.rename(tmp, out)
    return out


def build(pid, spec):
    os.makedirs(os.path.join(BUILD, 'obj'), exist_ok=True)
    os.makedirs(os.path.join(BUILD, 'bin'), exist_ok=True)
    libsrc = os.path.join(REPO, 'src', 'libeopsi')
    headers = tree_digest(os.path.join(REPO, 'src'), ('.h', '.hpp'))
    inc = ['-I' + os.path.join(REPO, 'src'), '-I' + libsrc, '-I' + os.path.join(H, 'inc')]
    headers += ''.join(tree_digest(os.path.join(REPO, d), ('.cpp',)) for d in spec.get('key_dirs', []))
    san = SAN if spec.get('sanitize', True) else []
    extra = spec.get('flags', [])
    lib = ['-std=c++11', '-O1', '-g1', '-w', *san, *extra, *inc]
    drv = ['-std=c++17', '-O1', '-g1', '-w', *san, *extra, *inc, '-I' + H]
    mine = tree_digest(H, ('.hpp', '.h'))
    jobs = [(s, lib, headers) for s in sorted(glob.glob(os.path.join(libsrc, '**', '*.cpp'), recursive=True))]
    jobs += [(os.path.join(H, s), drv, headers + mine) for s in [spec.get('driver', pid.lower() + '.cpp'), *spec.get('with', ['env.cpp'])]]
    with ThreadPoolExecutor(8) as ex:
        objs = list(ex.map(lambda j: compile_one(*j), jobs))
    exe = os.path.join(BUILD, 'bin', '%s-%s' % (pid, digest(*objs)))
    if not os.path.exists(exe):
        tmp = exe + '.%d' % os.getpid()
        run([CXX, *san, *objs, '-o', tmp, '-lntl', '-lgmpxx', '-lgmp', '-lcryptopp', '-lpthread'])
        os.rename(tmp, exe)
    return exe


def environment(reuse=False):
    """reuse: memory is handed out again at once (else it rests in quarantine, so that its use is noticed)"""
    e = dict(os.environ)
    quarantine = 'quarantine_size_mb=0:thread_local_quarantine_size_kb=0' if reuse else 'quarantine_size_mb=4'
    e['ASAN_OPTIONS'] = 'abort_on_error=1:detect_leaks=0:' + quarantine + ':malloc_context_size=8:handle_abort=0:allocator_may_return_null=1:hard_rss_limit_mb=3000:fast_unwind_on_malloc=1'
    e['UBSAN_OPTIONS'] = 'halt_on_error=1:abort_on_error=1:print_stacktrace=1'
    e['LC_ALL'] = 'C'
    return e


def known_findings(pid):
    """Signatures listed in known_findings.txt: KNOWN property=<id> signature=<sig> <what fails>"""
    out = {}
    f = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(f):
        for l in open(f):
            w = l.split()
            if len(w) > 3 and w[0] == 'KNOWN' and w[1] == 'property=' + pid:
                out[w[2].split('=', 1)[1]] = ' '.join(w[3:])
    return out


def prune():
    """Objects and programs of other trees are not kept forever"""
    for d, keep in (('obj', 400), ('bin', 60)):
        fs = sorted(glob.glob(os.path.join(BUILD, d, '*')), key=os.path.getmtime)
        for f in fs[:-keep]:
            try:
                os.unlink(f)
            except OSError:
                pass


def evidence(pid, spec, tier, seed, s, wall, known, rc):
    sc = s.get('scenarios', [])
    samples = [{'scenario': x['name'], 'trace': t.strip().split('\n')[:60]} for x in sc for t in x['samples'][:2]]
    total = sum(x['executions'] for x in sc)
    cov = {
        'states': sum(x['states'] for x in sc),
        'transitions': sum(x['transitions'] for x in sc),
        'traces_validated_against_impl': total,
        'exhaustive': bool(sc) and all(x['complete'] for x in sc) and rc == 0,
        'scenarios': [{k: x[k] for k in ('name', 'what', 'executions', 'transitions', 'states', 'max_choices', 'deviation_bound', 'complete', 'replayed_twice', 'divergent_replays', 'outcomes', 'wall_s')} for x in sc],
        'samples': samples[:8],
        'explanation': 'Every execution runs the real library (sanitized build of the current tree) on one sequence of choices and compares it with a reference model step by step; '
                       'so every explored trace is by construction a trace of the implementation. states: distinct canonical states recorded by the driver; transitions: operations performed on the implementation.',
    }
    if spec.get('level') == 'fault_enumeration':
        cov['evaluations'] = cov.pop('transitions')
        cov['distinct_nontrivial'] = cov.pop('states')
        cov.pop('traces_validated_against_impl')
        cov['rule'] = spec['rule']
    ev = {'property': pid, 'tier': tier, 'seed': seed, 'level': spec.get('level', 'model_checking'), 'coverage': cov,
          'assumptions': spec.get('assumptions', []), 'wall_s': round(wall, 2), 'violations': 1 if rc == 1 else 0}
    if known:
        ev['known_findings'] = known
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
        f.write('\n')


def main():
    t0 = time.time()
    a = sys.argv[1:]
    pid = a.pop(0)
    if pid == '--setup':  # build what the checks of this tree need
        for k, v in SPECS.items():
            try:
                build(k, v)
            except BuildError as e:
                print('build failed: %s' % e)
        return 0
    spec = SPECS[pid]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--thorough' in a:
        tier = 'thorough'
        a.remove('--thorough')
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    try:
        exe = build(pid, spec)
    except BuildError as e:
        print('build failed: %s' % e)
        return 2
    prune()
    tb = time.time() - t0
    known = known_findings(pid)
    tmp = tempfile.mkdtemp(prefix='eopsi-%s-' % pid)
    try:
        out = os.path.join(tmp, 'summary.json')
        cap = 780 if tier == 'quick' else int(os.environ.get('VERIF_CAP', '840'))
        cmd = [exe, '--out', out, '--replays', os.path.join(VERIF, 'replays'), '--tmp', tmp, '--seed', str(seed), '--jobs', os.environ.get('EOPSI_JOBS') or str(os.cpu_count() or 4)]
        if tier == 'thorough':
            cmd.append('--thorough')
        for k in known:
            cmd += ['--known', k]
        only = a[a.index('--only') + 1] if '--only' in a else ''
        if '--replay' in a:
            only = next((l.split()[1] for l in open(a[a.index('--replay') + 1]) if l.startswith('scenario ')), '')
        s, rc = {}, 0
        for reuse in (False, True):  # scenarios named reused... run where memory is handed out again at once
            if reuse != only.startswith('reused') if only else reuse and not spec.get('reuse'):
                continue
            env = environment(reuse)
            env.update(EOPSI_REPO=REPO, EOPSI_TMP=tmp, EOPSI_BUILD=BUILD)
            r = subprocess.run(cmd + ['--cap', str(max(40, int(cap - (40 if spec.get('reuse') and not reuse else 0) - (time.time() - t0)))), '--reused' if reuse else '--not-reused'] + a, env=env)
            rc = r.returncode
            if '--replay' in a:
                return rc
            one = json.load(open(out)) if os.path.exists(out) else {}
            s['scenarios'] = s.get('scenarios', []) + one.get('scenarios', [])
            if rc:
                break
        hits = {k: v for x in s.get('scenarios', []) for k, v in x.get('known', {}).items()}
        for k in known:
            if k in hits:
                print('KNOWN-FINDING: property=%s %s' % (pid, known[k]))
        evidence(pid, spec, tier, seed, s, time.time() - t0, {k: known[k] for k in hits}, rc)
        print('%s: %d executions, %d transitions, %d states, build %.1f s, total %.1f s, exit %d' % (
            pid, sum(x['executions'] for x in s.get('scenarios', [])), sum(x['transitions'] for x in s.get('scenarios', [])),
            sum(x['states'] for x in s.get('scenarios', [])), tb, time.time() - t0, rc))
        return rc if rc in (0, 1) else 2
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


if __name__ == '__main__':
    sys.exit(main())
