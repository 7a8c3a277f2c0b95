#!/usr/bin/env python3
"""Decides one property of properties.jsonl on the current /repo working tree.

usage: check.py <property> [--tier quick|thorough] [--keep] [--scenario S]
       check.py --setup          build the two engines into build/
       check.py --replay FILE    re-run a recorded counterexample

exit 0: held on everything explored; 1: violated (VIOLATION line); 2: no answer.
"""
import sys, os, subprocess, json, tempfile, shutil, time, re, concurrent.futures, hashlib

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
sys.path.insert(0, HERE)
from checks import CHECKS  # noqa: E402

WRAP = '-Wl,--wrap=memcpy,--wrap=memmove,--wrap=memset,--wrap=memcmp'
ENGINES = {
    'mc': (['g++', '-std=gnu++17', '-O2', '-fno-omit-frame-pointer', '-g', '-fno-builtin-malloc', '-w', '-c'], 'mcrt/mcrt.cpp', 'mcrt/mc.h', 'mcrt.o'),
    'seq': (['g++', '-std=gnu++17', '-O2', '-g', '-w', '-c'], 'seq/seq.cpp', 'seq/seq.h', 'seq.o'),
}


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', **kw)


def engine(kind, scratch):
    flags, src, hdr, obj = ENGINES[kind]
    key = hashlib.sha256(open(os.path.join(HERE, src), 'rb').read() + open(os.path.join(HERE, hdr), 'rb').read()).hexdigest()[:16]
    for d in (os.path.join(HERE, 'build'), scratch):
        o = os.path.join(d, key + '-' + obj)
        if os.path.exists(o):
            return o
    d = os.path.join(HERE, 'build')
    try:
        os.makedirs(d, exist_ok=True)
    except OSError:
        d = scratch
    if not os.access(d, os.W_OK):
        d = scratch
    o = os.path.join(d, key + '-' + obj)
    tmp = o + '.%d.tmp' % os.getpid()
    r = sh(flags + [os.path.join(HERE, src), '-o', tmp])
    if r.returncode:
        print(r.stdout)
        raise SystemExit(2)
    os.rename(tmp, o)
    return o


def compile_harness(name, kind, scratch):
    """-> (binary or None, compiler output)"""
    src = os.path.join(HERE, 'harness', name + '.cpp')
    text = open(src).read()
    extra = []
    for m in re.finditer(r'^// CFLAGS: (.*)$', text, re.M):
        extra += m.group(1).split()
    libs = []
    for m in re.finditer(r'^// LIBS: (.*)$', text, re.M):
        libs += m.group(1).split()
    std = '-std=c++14'
    inc = ['-I', os.path.join(scratch, 'inc'), '-I', os.path.join(HERE, 'stubs'), '-I', os.path.join(HERE, 'harness')]
    o = os.path.join(scratch, name + '.o')
    exe = os.path.join(scratch, name)
    if kind == 'mc':
        c = ['g++', std, '-O1', '-fno-omit-frame-pointer', '-g', '-w', '-fsanitize=thread', '--param', 'tsan-instrument-func-entry-exit=0', '-I', os.path.join(HERE, 'mcrt')]
        l = ['g++', '-no-pie', '-rdynamic', o, engine('mc', scratch), '-o', exe, WRAP, '-ldl', '-pthread', '-latomic']
    else:
        c = ['g++', std, '-O1', '-g', '-fno-var-tracking', '-w', '-fsanitize=address,undefined', '-fno-sanitize-recover=undefined', '-I', os.path.join(HERE, 'seq'), '-DVERIF_INCLUDES="' + ' '.join(inc) + '"']
        l = ['g++', '-fsanitize=address,undefined', '-rdynamic', o, engine('seq', scratch), '-o', exe, '-latomic', '-pthread']
    m = re.search(r'^// WARNINGS: (.*)$', text, re.M)
    if m:  # instead of none
        c = [f for f in c if f != '-w'] + m.group(1).split()
    r = sh(c + inc + extra + ['-c', src, '-o', o])
    if r.returncode:
        return None, r.stdout
    r2 = sh(l + libs)
    if r2.returncode:
        return None, r2.stdout
    return exe, r.stdout


def known_findings(pid):
    p = os.path.join(HERE, 'known-findings.json')
    if not os.path.exists(p):
        return []
    return [f for f in json.load(open(p)) if f.get('property') == pid and f.get('status') == 'known']


def symbolize(exe, text):
    addrs = sorted(set(re.findall(r'\b0x4[0-9a-f]{5}\b', text)))
    if not addrs:
        return text
    r = subprocess.run(['addr2line', '-Cfe', exe] + addrs, stdout=subprocess.PIPE, text=True, errors='replace')
    ls = r.stdout.split('\n')
    m = {a: '%s (%s)' % (ls[2 * i + 1].split('/')[-1], ls[2 * i][:80]) for i, a in enumerate(addrs) if 2 * i + 1 < len(ls)}
    return re.sub(r'\b0x4[0-9a-f]{5}\b', lambda x: m.get(x.group(0), x.group(0)), text)


def run_trace(exe, kind, line, scratch):
    rp = os.path.join(scratch, 'r.txt')
    open(rp, 'w', errors='replace').write(line + '\n')
    tr = os.path.join(scratch, 'trace.txt')
    try:
        if kind == 'mc':
            r = sh([exe, '--replay', rp, '--trace', tr], timeout=60)
            t = open(tr, errors='replace').read() if os.path.exists(tr) else ''
            return symbolize(exe, t + r.stdout)
        return sh([exe, '--replay', rp], timeout=60).stdout
    except subprocess.TimeoutExpired:
        return '(trace timed out)'


def save_replay(pid, kind, name, scen, line, msg, trace):
    d = os.path.join(HERE, 'replays')
    try:
        os.makedirs(d, exist_ok=True)
    except OSError:
        d = tempfile.gettempdir()
    p = os.path.join(d, '%s-%s-%s.txt' % (pid, name, scen))
    with open(p, 'w') as f:
        f.write('%s\n# property %s engine %s harness %s\n# %s\n\n%s\n' % (line, pid, kind, name, msg, trace))
    return p


def make_scratch():
    s = tempfile.mkdtemp(prefix='verif-')
    os.makedirs(os.path.join(s, 'inc'))
    os.symlink(os.path.join(REPO, 'src'), os.path.join(s, 'inc', 'sharemind'))
    return s


def check(pid, tier, keep, only):
    t0 = time.time()
    spec = CHECKS[pid]
    budget = spec.get('budget', {}).get(tier, 60 if tier == 'quick' else 600)
    scratch = make_scratch()
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    status = 0
    violations = 0
    scen = []
    samples = []
    tot = dict(states=0, transitions=0, executions=0)
    capped = []
    kf = known_findings(pid)
    kf_hit = []
    try:
        hs = spec['harnesses']
        for kind in sorted(set(k for _, k in hs)):
            engine(kind, scratch)
        with concurrent.futures.ThreadPoolExecutor(8) as ex:
            futs = {h: ex.submit(compile_harness, h[0], h[1], scratch) for h in hs}
            built = {h: f.result() for h, f in futs.items()}
        runnable = []
        for (name, kind) in hs:
            exe, out = built[(name, kind)]
            if exe is None:
                # The harness uses only the public interface: not compiling
                # means that the operations of the property are not available.
                print('%s: harness %s does not compile against the current tree:' % (pid, name))
                print('\n'.join(l for l in out.split('\n') if 'error' in l)[:3000])
                p = save_replay(pid, kind, name, 'compile', 'compile', 'public interface does not compile', out)
                print('VIOLATION property=%s replay=%s' % (pid, p))
                violations += 1
                status = 1
                continue
            runnable.append((name, kind, exe))
        for i, (name, kind, exe) in enumerate(runnable):
            left = max(3.0, (budget - (time.time() - t0)) / (len(runnable) - i))
            jf = os.path.join(scratch, name + '.jsonl')
            cmd = [exe, '--tier', tier, '--budget', '%.1f' % left, '--jobs', '8', '--out', jf]
            if only:
                cmd += ['--scenario', only]
            try:
                r = sh(cmd, timeout=left + 200)
            except subprocess.TimeoutExpired:
                print('%s: harness %s did not finish' % (pid, name))
                status = status or 2
                continue
            rows = [json.loads(l) for l in open(jf, errors='replace')] if os.path.exists(jf) else []
            v = 0
            for row in rows:
                if 'violation' in row:
                    if not row.get('reproduced'):
                        print('%s: %s/%s: not reproduced: %s' % (pid, name, row['scenario'], row['violation']))
                        status = status or 2
                        continue
                    hit = [k for k in kf if k.get('harness', name) == name and k['scenario'] == row['scenario'] and re.search(k['match'], row['violation'])]
                    if hit:
                        kf_hit.append(hit[0])
                        continue
                    v += 1
                    trace = run_trace(exe, kind, row['replay'], scratch)
                    p = save_replay(pid, kind, name, row['scenario'], row['replay'], row['violation'], trace)
                    print('%s: %s/%s: %s' % (pid, name, row['scenario'], row['violation']))
                    print('VIOLATION property=%s replay=%s' % (pid, p))
                elif 'internal_error' in row:
                    print('%s: %s/%s: internal error: %s' % (pid, name, row['scenario'], row['internal_error']))
                    status = status or 2
                else:
                    row['harness'] = name
                    scen.append(row)
                    tot['states'] += row.get('states', 0) or (row.get('executions', 0) if kind == 'seq' else 0)
                    tot['transitions'] += row.get('transitions', 0)
                    tot['executions'] += row.get('executions', 0)
                    if row.get('capped'):
                        capped.append('%s/%s' % (name, row['scenario']))
                    samples += ['%s/%s: %s' % (name, row['scenario'], s) for s in row.pop('samples', [])[:2]]
            if v:
                violations += v
                status = 1
            elif r.returncode not in (0, 1):
                print('%s: harness %s exited with %d\n%s' % (pid, name, r.returncode, r.stdout[-2000:]))
                status = status or 2
            if rows and len(samples) < 6 and status == 0:
                okrow = [x for x in rows if 'violation' not in x and 'internal_error' not in x]
                if okrow:
                    x = okrow[0]
                    line = 'scenario %s bound %s%s choices 0' % (x['scenario'], x['bound_wanted'], '' if kind == 'mc' else ' tier %d' % (tier == 'thorough'))
                    t = run_trace(exe, kind, line, scratch).split('\n')
                    samples.append({'scenario': '%s/%s' % (name, x['scenario']), 'first_execution': t[:40]})
        for k in kf:
            # a listed finding is announced on every run in which it still fails
            if k in kf_hit:
                print('KNOWN-FINDING: property=%s %s' % (pid, k['what']))
        ev = {
            'property': pid, 'tier': tier, 'seed': seed, 'level': 'model_checking',
            'coverage': {
                'states': tot['states'], 'transitions': tot['transitions'],
                'traces_validated_against_impl': tot['executions'],
                'executions_of_the_real_code': tot['executions'],
                'exhaustive': not capped and status == 0,
                'explanation': 'Every execution is of the code compiled from the current /repo tree; there is no separate model to bind. '
                               'states: distinct reached states (mc: happens-before state fingerprints; seq: fingerprints registered by the harness, otherwise the enumerated histories or inputs, all distinct); '
                               'transitions: scheduling/environment/operation steps taken. "exhaustive": all behaviours within the bounds listed per scenario were enumerated.',
                'bounds_per_scenario': scen,
                'not_finished_within_budget': capped,
                'samples': samples[:8],
            },
            'assumptions': spec.get('assumptions', []),
            'wall_s': round(time.time() - t0, 2),
            'violations': violations,
        }
        if not only and not os.environ.get('VERIF_NO_EVIDENCE'):
            os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
            with open(os.path.join(HERE, 'evidence', pid + '.json'), 'w') as f:
                json.dump(ev, f, indent=1)
        for row in scen:
            print('  %-44s %10d executions %9d states %11d transitions bound %s%s %.1fs' % (
                row['harness'] + '/' + row['scenario'], row['executions'], row['states'], row['transitions'],
                row['bound_completed'], ' CAPPED' if row.get('capped') else '', row['wall_s']))
        print('%s %s: %s in %.1fs' % (pid, tier, {0: 'holds', 1: 'VIOLATED', 2: 'no answer'}[status], time.time() - t0))
    finally:
        if not keep:
            shutil.rmtree(scratch, ignore_errors=True)
        else:
            print('kept', scratch)
    return status


def replay(path):
    t = open(path, errors='replace').read().split('\n')
    m = re.match(r'# property (\S+) engine (\S+) harness (\S+)', t[1])
    scratch = make_scratch()
    try:
        exe, out = compile_harness(m.group(3), m.group(2), scratch)
        if exe is None:
            print(out)
            return 1
        print(run_trace(exe, m.group(2), t[0], scratch))
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    return 0


def main():
    a = sys.argv[1:]
    if a and a[0] == '--setup':
        os.makedirs(os.path.join(HERE, 'build'), exist_ok=True)
        for k in ENGINES:
            print(engine(k, os.path.join(HERE, 'build')))
        return 0
    if a and a[0] == '--replay':
        return replay(a[1])
    pid = a[0]
    tier = os.environ.get('VERIF_TIER', 'quick')
    keep = False
    only = None
    i = 1
    while i < len(a):
        if a[i] == '--tier':
            i += 1
            tier = a[i]
        elif a[i] == '--keep':
            keep = True
        elif a[i] == '--scenario':
            i += 1
            only = a[i]
        i += 1
    return check(pid, tier, keep, only)


if __name__ == '__main__':
    sys.exit(main())
