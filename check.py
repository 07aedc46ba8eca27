#!/usr/bin/env python3
"""Runs the check of one property:  check.py <ID> [quick|thorough]   |   check.py <ID> --replay FILE

Builds the harness and the code under test from the current tree of /repo (override: VERIF_REPO),
runs the generated-input search, writes evidence/<ID>.json and prints
VIOLATION property=<ID> replay=<path> (exit 1) or nothing (exit 0).  Other exits: error of the check.
"""
import sys, os, json, glob, subprocess, shutil, time, struct, tempfile
from concurrent.futures import ThreadPoolExecutor

V = os.path.dirname(os.path.abspath(__file__))
R = os.environ.get('VERIF_REPO', '/repo')
sys.path.insert(0, V)
import specs

CXX = os.environ.get('VERIF_CXX', 'g++-10')
DEFS = ['-DMG_ERRROR_LOG=1', '-DHAVE_LIBUV=1', '-DHAVE_INTTYPES_H=1']
COMMON = ['-std=c++11', '-g1', '-O1', '-fno-omit-frame-pointer', '-fpermissive', '-w']
INC = ['-I' + R + '/src', '-I' + R + '/src/mg', '-I' + R + '/src/b64/include', '-I' + V + '/lib', '-I' + V + '/harness']
LIBS = ['-luv', '-lpthread', '-ldl', '-lrt']


def die(msg):
    print('CHECK-ERROR ' + msg, flush=True)
    sys.exit(3)


def run_cc(cmd):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return p.returncode, ' '.join(cmd) + '\n' + p.stdout


def repo_sources(groups):
    out = []
    for g in groups:
        if g == 'core':
            out += sorted(glob.glob(R + '/src/mg/core/*.cpp')) + sorted(glob.glob(R + '/src/mg/core/nx/*.cpp'))
        elif g == 'b64':
            out += sorted(glob.glob(R + '/src/b64/src/*.cpp'))
        elif g == 'crc':
            out += [R + '/src/mg/media/wincrc.cpp']
        else:
            out += sorted(glob.glob(os.path.join(R, g)))
    return out


def build(spec, bdir):
    """compile and link the harness; returns the path of the binary"""
    h = spec['harness']
    san = spec.get('sanitize', ['-fsanitize=address'])
    cov = [] if spec.get('nocov') else ['-fsanitize-coverage=trace-pc']
    extra_inc = []
    prep = spec.get('prepare')
    if prep:
        extra_inc = prep(R, V, bdir)
    jobs = []
    objs = []
    def add(src, flags):
        o = os.path.join(bdir, '%02d_' % len(objs) + os.path.basename(src) + '.o')
        objs.append(o)
        jobs.append([CXX] + flags + ['-c', src, '-o', o])
    full = DEFS + COMMON + san + cov + spec.get('flags', []) + INC + extra_inc
    # the program comes first, as it does when it is linked with the libraries: its inline functions are the ones used
    for s in [h] + spec.get('more', []):
        add(os.path.join(V, 'harness', s + '.cpp'), full)
    for s in repo_sources(spec.get('repo', ['core'])):
        add(s, full)
    # the engine itself is neither instrumented for coverage nor part of the code under test
    add(os.path.join(V, 'lib', 'pbt.cpp'), ['-std=c++11', '-O2', '-g1', '-I' + V + '/lib'])
    with ThreadPoolExecutor(8) as ex:
        for rc, out in ex.map(run_cc, jobs):
            if rc:
                die('build failed:\n' + out[-6000:])
    exe = os.path.join(bdir, h)
    rc, out = run_cc([CXX] + san + objs + ['-o', exe] + spec.get('libs', []) + LIBS)
    if rc:
        die('link failed:\n' + out[-6000:])
    return exe


def known_findings(pid):
    """entries 'finding: property=<id> replay=<file> <what>'"""
    res = []
    try:
        for line in open(os.path.join(V, 'known_findings.txt')):
            if line.startswith('finding:') and ('property=%s ' % pid) in line:
                parts = line.split(None, 3)
                rep = [p for p in parts if p.startswith('replay=')]
                res.append((rep[0][7:] if rep else None, parts[3].strip() if len(parts) > 3 else ''))
    except FileNotFoundError:
        pass
    return res


def main():
    if len(sys.argv) < 2 or sys.argv[1] not in specs.SPECS:
        die('usage: check.py <ID> [quick|thorough]')
    pid = sys.argv[1]
    spec = specs.SPECS[pid]
    tier = 'quick'
    replay = None
    if len(sys.argv) > 2:
        if sys.argv[2] == '--replay':
            replay = sys.argv[3]
        else:
            tier = sys.argv[2]
    elif os.environ.get('VERIF_TIER') in ('quick', 'thorough'):
        tier = os.environ['VERIF_TIER']
    seed = int(os.environ.get('VERIF_SEED', '1') or '1')
    t0 = time.time()
    bdir = os.path.join(V, 'build', pid + ('-%d' % os.getpid() if os.environ.get('VERIF_PRIVATE') else ''))
    odir = os.environ.get('VERIF_OUT', os.path.join(V, 'out')) + '/' + pid
    for d in (bdir, odir):
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
    os.makedirs(os.path.join(V, 'evidence'), exist_ok=True)
    exe = build(spec, bdir)
    t_build = time.time() - t0
    tmp = tempfile.mkdtemp(prefix='verif-%s-' % pid)
    try:
        env = dict(os.environ, VERIF_TMP=tmp, VERIF_REPO=R, VERIF_ROOT=V, VERIF_BUILD=bdir, TZ=spec.get('tz', 'UTC'), LC_ALL='C.UTF-8')
        if replay:
            rc = subprocess.run([exe, '--tmp', tmp, '--replay', replay], env=env, cwd=tmp).returncode
            sys.exit(rc)
        t = spec[tier]
        rfile = os.path.join(odir, 'violation.replay')
        base = os.path.join(odir, 'run')
        jobs = spec.get('jobs', 8)
        cmd = [exe, '--tmp', tmp, '--out', base, '--seed', str(seed), '--jobs', str(jobs), '--cases', str(t['cases']),
               '--time', str(t.get('time', 300 if tier == 'quick' else 700)), '--hang', str(spec.get('hang', 20)), '--replay-out', rfile,
               '--only', ','.join(spec['props'])]
        if t.get('cov', tier == 'thorough') and not spec.get('nocov'):
            cmd.append('--cov')
        errlog = os.path.join(odir, 'stderr.txt')
        with open(errlog, 'w') as ef:
            p = subprocess.run(cmd, env=env, cwd=tmp, stdout=subprocess.PIPE, stderr=ef, text=True)
        if p.returncode not in (0, 1):
            die('harness ended with %d\n%s\n%s' % (p.returncode, p.stdout[-2000:], open(errlog).read()[-2000:]))
        # collect
        ev = dict(evaluations=0, discarded=0)
        labels, counters, excluded, samples, hashes = {}, {}, {}, [], set()
        corpus = covbits = nontriv = 0
        for f in sorted(glob.glob(base + '.*.json')):
            d = json.load(open(f))
            ev['evaluations'] += d['evaluations']; ev['discarded'] += d['discarded']; nontriv += d['nontrivial']
            corpus += d['corpus']; covbits = max(covbits, d['covbits'])
            for k, v in d['labels'].items(): labels[k] = labels.get(k, 0) + v
            for k, v in d['counters'].items(): counters[k] = counters.get(k, 0) + v
            for k, v in d['excluded'].items(): excluded[k] = excluded.get(k, 0) + v
            ss = d['samples']
            if ss:
                step = max(1, len(ss) // 3)
                samples += ss[::step][:4]
            hf = f[:-5] + '.hash'
            if os.path.exists(hf):
                b = open(hf, 'rb').read()
                hashes.update(struct.unpack('<%dQ' % (len(b) // 8), b))
        summ = json.load(open(base + '.summary'))
        failmsg = ''
        for line in p.stdout.splitlines():
            if line.startswith('FAILED '):
                failmsg = line
        kf_lines = []
        for rep, what in known_findings(pid):
            if rep:
                q = subprocess.run([exe, '--tmp', tmp, '--replay', os.path.join(V, rep)], env=env, cwd=tmp, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True)
                if q.returncode == 1:
                    kf_lines.append('KNOWN-FINDING: property=%s %s' % (pid, what))
            else:
                kf_lines.append('KNOWN-FINDING: property=%s %s' % (pid, what))
        viol = 1 if p.returncode == 1 else 0
        if viol and not samples:
            samples = [failmsg]
        if not viol and ev['evaluations'] == 0:
            die('no cases were run\n' + open(errlog).read()[-2000:])
        if not viol and summ['unreproduced'] > 15:
            die('too many failures that did not reproduce: ' + summ['unreproduced_msg'])
        evidence = {
            'property': pid, 'tier': tier, 'seed': seed, 'level': spec.get('level', 'exploration'),
            'coverage': {
                'evaluations': ev['evaluations'], 'distinct_nontrivial': len(hashes), 'rule': spec['rule'], 'samples': samples[:16] or ['(stopped at the first case)'],
                'nontrivial_cases': nontriv, 'discarded': ev['discarded'], 'labels': labels, 'counters': counters, 'excluded_known_findings': excluded,
                'coverage_guided_corpus': corpus, 'coverage_map_entries': covbits, 'jobs': jobs, 'build_s': round(t_build, 1), 'search_s': summ['wall'],
                'unreproduced_failures': summ['unreproduced'], 'unreproduced_last': summ['unreproduced_msg'],
            },
            'assumptions': spec.get('assumptions', []),
            'wall_s': round(time.time() - t0, 2), 'violations': viol,
        }
        if viol:
            evidence['coverage']['failure'] = failmsg
        with open(os.path.join(V, 'evidence', pid + '.json'), 'w') as f:
            json.dump(evidence, f, indent=1)
        for l in kf_lines:
            print(l)
        print('%s %s: %d cases, %d distinct non-trivial, %.1f s build, %.1f s search' % (pid, tier, ev['evaluations'], len(hashes), t_build, summ['wall']))
        if viol:
            print(failmsg)
            print('VIOLATION property=%s replay=%s' % (pid, rfile), flush=True)
            sys.exit(1)
        sys.exit(0)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
        if not os.environ.get('VERIF_KEEP'):
            shutil.rmtree(bdir, ignore_errors=True)


main()
