"""Runs the check of one property: workers, evidence, verdict.

exit 0  property held on everything explored (KNOWN-FINDING lines possible)
exit 1  VIOLATION line printed
exit 3  the machinery could not decide (harness error, time limit)
"""
import argparse
import importlib
import json
import mmap
import os
import pickle
import random
import resource
import struct
import sys
import time
import traceback
import warnings

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')


# How many times the counts of its sub-checks a quick check runs. The counts say
# how often sub-checks run in relation to each other.
QUICK = {'C01': 6, 'C02': 6, 'C03': 6, 'C04': 6, 'C05': 6, 'C06': 6, 'C07': 5,
         'C08': 6, 'C09': 3, 'C10': 3, 'C11': 3, 'C12': 3, 'C13': 3, 'C14': 3,
         'C15': 4, 'C16': 6, 'C17': 5, 'C18': 4, 'C19': 4, 'C20': 4, 'C21': 2,
         'C23': 4, 'C24': 4, 'C25': 2, 'C27': 4, 'C28': 2, 'C29': 3, 'C30': 4,
         'C31': 6, 'C32': 5, 'C33': 1}


def load_findings(pid):
    path = os.path.join(HERE, 'known_findings.json')
    if not os.path.exists(path):
        return []
    with open(path) as f:
        return [x for x in json.load(f)['findings']
                if x['property'] == pid and x['status'] == 'known']


def load_suite(pid):
    sys.path.insert(0, HERE)
    if sys.path[1] != REPO:
        sys.path.insert(1, REPO)
    sys.dont_write_bytecode = True
    warnings.simplefilter('ignore')
    import pgp
    got = os.path.dirname(os.path.dirname(os.path.abspath(pgp.__file__)))
    if got != os.path.abspath(REPO):
        raise RuntimeError('pgp imported from %s' % got)
    return importlib.import_module('checks.' + pid.lower()).suite


def worker_loop(suite, tasks, seed, wfd, deadline, shared):
    out = os.fdopen(wfd, 'wb')
    from vlib import engine
    failed = set()
    for (pi, start, stop) in tasks:
        if pi in failed:
            continue
        prop = suite.props[pi]

        def progress(i, pi=pi):
            shared[0:12] = struct.pack('>IQ', pi + 1, i)
        try:
            r = engine.run_chunk(suite, prop, seed, start, stop, deadline,
                                 progress)
        except BaseException:
            r = {'error': '%s cases %d-%d: %s' % (
                prop.name, start, stop, traceback.format_exc())}
        blob = pickle.dumps(r)
        out.write(struct.pack('>I', len(blob)))
        out.write(blob)
        out.flush()
        if r.get('failure') or r.get('error') or r.get('timeout'):
            failed.add(pi)
    out.close()


def main(argv=None):
    ap = argparse.ArgumentParser()
    ap.add_argument('pid')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--seed', type=int,
                    default=int(os.environ.get('VERIF_SEED', '1') or 1))
    ap.add_argument('--jobs', type=int, default=int(
        os.environ.get('VERIF_JOBS', '0')) or max(1, min(8, os.cpu_count() or 1)))
    ap.add_argument('--replay')
    ap.add_argument('--only')
    ap.add_argument('--scale', type=float, default=1.0)
    ap.add_argument('--stats', action='store_true')
    ap.add_argument('--no-evidence', action='store_true')
    a = ap.parse_args(argv)
    t0 = time.time()
    try:
        suite = load_suite(a.pid)
    except Exception:
        # the code under test (or the harness) does not even import
        traceback.print_exc()
        print('ERROR: cannot load check %s' % a.pid)
        return 3
    from vlib import engine

    if a.replay:
        with open(a.replay) as f:
            rep = json.load(f)
        prop = [p for p in suite.props if p.name == rep['subcheck']][0]
        if rep['choices'] is None:
            status, d, detail = engine.run_case(prop, rng=random.Random(
                engine.derive(rep['seed'], a.pid, prop.name, rep['index'])))
        else:
            status, d, detail = engine.run_case(prop, prefix=rep['choices'])
        for k, v in d.notes:
            print('  %s = %s' % (k, v))
        print(status, detail or '')
        if status in ('fail', 'hang'):
            print('VIOLATION property=%s replay=%s' % (a.pid, a.replay))
            return 1
        return 0

    thorough = a.tier == 'thorough'
    # (a quick check takes a minute; on a slow machine it looks at fewer cases)
    deadline = t0 + float(os.environ.get('VERIF_BUDGET',
                                         '780' if thorough else '480'))
    props = suite.props
    sizes = []
    for p in props:
        n = p.thorough if thorough else p.quick
        n = max(1, int(n * a.scale * (1 if thorough else QUICK.get(a.pid, 1))))
        if a.only and p.name not in a.only.split(','):
            n = 0
        sizes.append(n)
    # interleave chunks over workers deterministically
    nw = a.jobs
    tasks = [[] for _ in range(nw)]
    allchunks = []
    for pi, n in enumerate(sizes):
        if not n:
            continue
        c = max(1, -(-n // (nw * (4 if thorough else 1))))
        for k, s in enumerate(range(0, n, c)):
            allchunks.append((k // nw, pi, (pi + k) % nw, s, min(n, s + c)))
    allchunks.sort()
    for (_r, pi, w, s, e) in allchunks:
        tasks[w].append((pi, s, e))
    results = []
    pids = []
    died = []
    sys.stdout.flush()
    for w in range(nw):
        if not tasks[w]:
            continue
        rfd, wfd = os.pipe()
        shared = mmap.mmap(-1, 4096)
        pid = os.fork()
        if pid == 0:
            code = 0
            try:
                os.close(rfd)
                # output of the code under test (e.g. debugging prints)
                # must not mix with verdict lines
                dn = os.open(os.devnull, os.O_WRONLY)
                os.dup2(dn, 1)
                if suite.memory:
                    resource.setrlimit(resource.RLIMIT_AS,
                                       (suite.memory, suite.memory))
                worker_loop(suite, tasks[w], a.seed, wfd, deadline, shared)
            except BaseException:
                traceback.print_exc()
                code = 3
            finally:
                os._exit(code)
        os.close(wfd)
        pids.append((pid, rfd, shared))
    errors = []
    for pid, rfd, shared in pids:
        with os.fdopen(rfd, 'rb') as f:
            while True:
                h = f.read(4)
                if len(h) < 4:
                    break
                results.append(pickle.loads(f.read(struct.unpack('>I', h)[0])))
        _, st = os.waitpid(pid, 0)
        if st != 0:
            pi, i = struct.unpack('>IQ', shared[0:12])
            if pi and suite.crash:
                died.append((suite.props[pi - 1].name, i, st))
            else:
                errors.append('worker died with status %r (case %d of %s)' % (
                    st, i, suite.props[pi - 1].name if pi else '?'))
    failures = {}
    total = 0
    rejects = 0
    nontrivial = {}
    labels = {}
    samples = []
    counts = {}
    for r in results:
        if r.get('error'):
            errors.append(r['error'])
            continue
        total += r['n']
        rejects += r['rejects']
        counts[r['prop']] = counts.get(r['prop'], 0) + r['n']
        nontrivial.setdefault(r['prop'], set()).update(r['nontrivial'])
        for k, v in r['labels'].items():
            kk = r['prop'] + ': ' + k
            labels[kk] = labels.get(kk, 0) + v
        for s in r['samples']:
            if sum(1 for x in samples if x['subcheck'] == s['subcheck']) < 2:
                samples.append(s)
        if r['timeout']:
            errors.append('%s: %s' % (r['prop'], r['timeout']))
        if r['failure']:
            f = r['failure']
            cur = failures.get(r['prop'])
            k = (len(f['choices']), sum(f['choices']))
            if cur is None or k < (len(cur['choices']), sum(cur['choices'])):
                failures[r['prop']] = f
    for name, i, st in died:
        failures.setdefault(name, {
            'property': a.pid, 'subcheck': name, 'seed': a.seed, 'index': i,
            'detail': 'the interpreter died (wait status %r) in case %d' % (
                st, i), 'choices': None, 'notes': []})
    # listed findings: re-run each exact reproduction
    known_lines = []
    finding_keys = {x['key']: x for x in load_findings(a.pid)}
    for key, fn in suite.known:
        if key not in finding_keys:
            errors.append('known-finding probe %r has no entry' % key)
            continue
        try:
            what = fn()
        except Exception:
            errors.append('probe %s: %s' % (key, traceback.format_exc()))
            continue
        if what:
            known_lines.append('KNOWN-FINDING: property=%s %s' % (
                a.pid, finding_keys[key]['what']))
    wall = time.time() - t0
    violations = []
    for name in sorted(failures):
        f = failures[name]
        rdir = os.path.join(HERE, 'replays')
        try:
            os.makedirs(rdir, exist_ok=True)
            path = os.path.join(rdir, '%s-%s-%d.json' % (
                a.pid, name, a.seed))
            with open(path, 'w') as fh:
                json.dump(f, fh, indent=1, default=str)
        except OSError as e:
            path = '(unwritable: %s)' % e
        violations.append((f, path))
    dn = sum(len(v) for v in nontrivial.values())
    evidence = {
        'property': a.pid, 'tier': 'thorough' if thorough else 'quick',
        'seed': a.seed, 'level': 'exploration',
        'coverage': {
            'evaluations': total, 'distinct_nontrivial': dn,
            'rule': suite.rule,
            'samples': [json.dumps(s)[:600] for s in samples[:24]],
            'rejected': rejects,
            'per_subcheck': counts,
            'nontrivial_per_subcheck': {k: len(v) for k, v in
                                        nontrivial.items()},
            'labels': labels,
        },
        'assumptions': [
            'PyPy 3.9 interpreter of /opt/venv and the libraries installed '
            'there; time zone UTC unless a case sets one',
        ],
        'violations': len(violations),
        'violation_details': [{'subcheck': f['subcheck'], 'detail': f['detail'],
                        'replay': p} for f, p in violations],
        'known_findings': known_lines,
        'wall_s': round(wall, 2),
    }
    if not a.no_evidence:
        path = os.path.join(HERE, 'evidence', a.pid + '.json')
        os.makedirs(os.path.dirname(path), exist_ok=True)
        with open(path, 'w') as fh:
            json.dump(evidence, fh, indent=1)
    if a.stats:
        for k in sorted(counts):
            print('  %-28s %7d cases, %7d distinct non-trivial' % (
                k, counts[k], len(nontrivial.get(k, ()))))
        for k in sorted(labels):
            print('      %-50s %d' % (k, labels[k]))
    print('%s %s seed=%d: %d cases (%d rejected), %d distinct non-trivial, '
          '%.1f s' % (a.pid, a.tier, a.seed, total, rejects, dn, wall))
    for l in known_lines:
        print(l)
    if violations:
        for f, p in violations:
            print('  [%s #%d] %s' % (f['subcheck'], f['index'], f['detail']))
            for k, v in f['notes']:
                print('      %s = %s' % (k, v))
        for f, p in violations:
            print('VIOLATION property=%s replay=%s' % (a.pid, p))
        return 1
    if errors:
        for e in errors:
            print('ERROR: ' + e)
        return 3
    return 0


if __name__ == '__main__':
    sys.exit(main())
