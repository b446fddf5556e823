"""Run the checks of one property: spawn workers, gather, report.

  runner.py PROPERTY [--replay FILE]       (environment: VERIF_TIER, VERIF_SEED)
  runner.py --worker ...                   (internal)
"""

import hashlib
import importlib
import json
import os
import resource
import shutil
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('RSVERIF_REPO', '/repo')
PYVT = '/opt/veriftools/pyvenv/lib/python3.12/site-packages'
sys.path[0] = HERE
sys.path.append(PYVT)
JOBS = 7


def setup_paths():
    """The code under test comes from /repo's working tree and nowhere else."""
    sys.path.insert(1, REPO)
    from rsverif import env  # noqa: F401  (stand-ins first)
    import resync
    got = os.path.realpath(os.path.dirname(resync.__file__))
    if got != os.path.realpath(os.path.join(REPO, 'resync')):
        raise RuntimeError('testing the wrong resync: %s' % got)
    try:
        importlib.import_module('resync.url_or_file_open')
    except ImportError:
        pass
    env.remember()


def load(prop):
    return importlib.import_module('rsverif.props.' + prop.lower())


ZONES = ['EST5EDT,M3.2.0,M11.1.0', 'UTC0', '<+0545>-5:45', 'NZST-12NZDT,M9.5.0,M4.1.0/3']


def surroundings(shard):
    """Environment variables of a worker: local time, the order of sets and the default encoding must not matter."""
    return {'TZ': ZONES[shard % len(ZONES)], 'PYTHONHASHSEED': str(shard), 'RSVERIF_CTYPE': 'C.UTF-8' if shard % 3 == 1 else 'C'}


def fewer_copies():
    """Have Hypothesis vary the cases it draws, by copying parts of them, less often.

    It does so five times for each new case, so that only a sixth of all are
    new. In large cases most copies differ in nothing that matters.
    """
    try:
        from hypothesis.internal.conjecture.engine import ConjectureRunner
        vary = ConjectureRunner.generate_mutations_from

        def sometimes(self, data):
            if self.random.random() < 0.2:
                vary(self, data)
        if vary.__name__ != 'sometimes':
            ConjectureRunner.generate_mutations_from = sometimes
    except (ImportError, AttributeError):
        pass


def worker(prop, check_name, shard, seed, tier, scratch, outfile):
    os.setsid()
    resource.setrlimit(resource.RLIMIT_AS, (3 << 30, 3 << 30))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    resource.setrlimit(resource.RLIMIT_FSIZE, (1 << 30, 1 << 30))
    os.chdir(scratch)
    out = open(outfile, 'w')
    from rsverif import env
    dropped = env.drop_privileges()
    env.encoding(os.environ.get('RSVERIF_CTYPE'))
    os.environ['HOME'] = scratch
    os.environ['HYPOTHESIS_STORAGE_DIRECTORY'] = os.path.join(scratch, '.hyp')
    tempfile.tempdir = scratch
    from rsverif import core

    def finish(result):
        out.seek(0)
        out.truncate()
        json.dump(result, out)
        out.flush()

    result = {'ok': False, 'dropped': dropped}
    try:
        setup_paths()
        mod = load(prop)
    except Exception as e:
        # The code under test cannot even be imported: an error, not a violation
        result['error'] = core.describe_exception(e)
        finish(result)
        return
    check = [c for c in mod.CHECKS if c.name == check_name][0]
    ctx = core.Ctx(prop, scratch)

    def snapshot(violation=None):
        result.update(ok=True, evaluations=ctx.evaluations,
                      nontrivial=sorted(ctx.nontrivial_hashes),
                      samples=ctx.samples, labels=ctx.labels,
                      known=ctx.known_hits, violation=violation)
        finish(result)

    found = {'best': None, 'since': None}

    def one(case):
        try:
            ctx.run_case(check, case)
        except Exception as e:
            msg = str(e) if isinstance(e, core.Violation) else core.describe_exception(e)
            size = len(core.canonical(case))
            if found['best'] is None or size <= found['best'][0]:
                found['best'] = (size, case, msg)
            if found['since'] is None:
                found['since'] = time.monotonic()
            elif time.monotonic() - found['since'] > 40:
                # shrunk for long enough
                snapshot({'check': check.name, 'case': found['best'][1], 'message': found['best'][2], 'env': surroundings(shard)})
                os._exit(0)
            raise

    def report():
        snapshot({'check': check.name, 'case': found['best'][1], 'message': found['best'][2], 'env': surroundings(shard)})

    if shard == 0:
        for case in check.examples:
            try:
                one(case)
            except Exception:
                report()
                return
    n = check.thorough if tier == 'thorough' else 2 * check.quick
    if n and check.strategy is not None:
        import hypothesis
        from hypothesis import HealthCheck, Phase
        fewer_copies()
        h = hashlib.sha256(('%s/%s/%d/%d' % (prop, check.name, shard, seed)).encode()).digest()

        # A run that takes far longer than planned stops early: fewer cases, same verdict
        stop_at = time.monotonic() + (3000 if tier == 'thorough' else 420)

        @hypothesis.seed(int.from_bytes(h[:8], 'big'))
        @hypothesis.settings(max_examples=n, database=None, deadline=None,
                             suppress_health_check=list(HealthCheck),
                             phases=(Phase.generate, Phase.target, Phase.shrink),
                             report_multiple_bugs=False, print_blob=False)
        @hypothesis.given(check.strategy())
        def test(case):
            if found['since'] is None and time.monotonic() > stop_at:
                return
            case = json.loads(core.canonical(case))   # exactly what a replay gets
            one(case)
        try:
            test()
        except Exception as e:
            if found['best'] is None:
                result['error'] = core.describe_exception(e)
                finish(result)
                return
            report()
            return
    snapshot()


def replay(prop, path):
    with open(path) as fh:
        rec = json.load(fh)
    want = rec.get('env') or {}
    if any(os.environ.get(k) != v for k, v in want.items()):
        # again, in the surroundings it was found in
        os.environ.update(want)
        os.execv(sys.executable, [sys.executable, '-B', os.path.abspath(__file__), prop, '--replay', path])
    scratch = tempfile.mkdtemp(prefix='rsverif')
    os.chmod(scratch, 0o777)
    os.chdir(scratch)
    from rsverif import env, core
    env.drop_privileges()
    env.encoding(os.environ.get('RSVERIF_CTYPE'))
    tempfile.tempdir = scratch
    setup_paths()
    mod = load(prop)
    check = [c for c in mod.CHECKS if c.name == rec['check']][0]
    ctx = core.Ctx(prop, scratch)
    try:
        ctx.run_case(check, rec['case'])
    except Exception as e:
        print('%s: %s' % (rec['check'], e if isinstance(e, core.Violation) else core.describe_exception(e)))
        print('VIOLATION property=%s replay=%s' % (prop, path))
        return 1
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    print('replay of %s: property held' % path)
    return 0


def main():
    prop = sys.argv[1]
    if len(sys.argv) > 3 and sys.argv[2] == '--replay':
        return replay(prop, os.path.abspath(sys.argv[3]))
    tier = os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    try:
        seed = int(os.environ.get('VERIF_SEED', '1'))
    except ValueError:
        seed = 1
    t0 = time.monotonic()
    from rsverif import core
    # The property modules are read here for the list of checks only
    setup_error = None
    scratch = tempfile.mkdtemp(prefix='rsverif-%s-' % prop)
    os.chmod(scratch, 0o711)
    running, results, errors = [], [], []
    violation = None
    try:
        listing = subprocess.run(
            [sys.executable, '-B', __file__, '--list', prop], stdout=subprocess.PIPE,
            stderr=subprocess.PIPE, text=True, timeout=120)
        if listing.returncode != 0:
            setup_error = listing.stderr.strip()[-2000:]
            print('ERROR: cannot load the checks or the code under test: ' + setup_error)
            return 2
        meta = json.loads(listing.stdout)
        tasks = []
        for c in meta['checks']:
            k = c['thorough_shards'] if tier == 'thorough' else c['shards']
            for s in range(k):
                tasks.append((c['name'], s))
        todo = list(tasks)
        deadline = time.monotonic() + (5400 if tier == 'thorough' else 800)
        while todo or running:
            while todo and len(running) < JOBS and violation is None:
                name, s = todo.pop(0)
                d = os.path.join(scratch, 'w%d' % len(results + running + errors + [0]) + '-' + str(len(todo)))
                os.mkdir(d)
                if os.getuid() == 0:
                    os.chown(d, 65534, 65534)
                outf = d + '.json'
                errf = open(d + '.err', 'w+')
                p = subprocess.Popen(
                    [sys.executable, '-B', __file__, '--worker', prop, name, str(s), str(seed), tier, d, outf],
                    env=dict(os.environ, **surroundings(s)),
                    stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=errf)
                running.append((p, name, s, outf, errf))
            still = []
            for item in running:
                p, name, s, outf, errf = item
                if p.poll() is None:
                    if violation is not None:
                        stop(p)
                    elif time.monotonic() > deadline:
                        stop(p)
                        errors.append('%s/%d: out of time' % (name, s))
                    else:
                        still.append(item)
                    continue
                try:
                    with open(outf) as fh:
                        r = json.load(fh)
                except (OSError, ValueError):
                    r = {'ok': False}
                if not r.get('ok'):
                    errf.seek(0)
                    errors.append('%s/%d: worker failed (%s) %s' % (
                        name, s, p.returncode, r.get('error') or errf.read()[-1500:]))
                else:
                    results.append((name, s, r))
                    if r['violation'] and violation is None:
                        violation = r['violation']
                errf.close()
            running = still
            if violation is not None:
                todo = []
            if running:
                time.sleep(0.02)
    finally:
        for item in running:
            stop(item[0])
        shutil.rmtree(scratch, ignore_errors=True)
    # Gather
    results.sort(key=lambda x: (x[0], x[1]))
    evaluations = sum(r['evaluations'] for _, _, r in results)
    distinct = set()
    per_check, labels, known, samples = {}, {}, {}, []
    for name, s, r in results:
        distinct.update(r['nontrivial'])
        pc = per_check.setdefault(name, {'evaluations': 0, 'labels': {}, '_nt': set()})
        pc['evaluations'] += r['evaluations']
        pc['_nt'].update(r['nontrivial'])
        for k, v in r['labels'].items():
            pc['labels'][k] = pc['labels'].get(k, 0) + v
        known.update(r['known'])
        if s == 0:
            samples.extend(r['samples'][:2])
    for pc in per_check.values():
        pc['distinct_nontrivial'] = len(pc.pop('_nt'))
    evidence = {
        'property': prop, 'tier': tier, 'seed': seed, 'level': 'exploration',
        'coverage': {
            'evaluations': evaluations,
            'distinct_nontrivial': len(distinct),
            'rule': meta['rule'],
            'samples': samples or [{'note': 'no non-trivial case in this run'}],
            'per_check': per_check,
        },
        'assumptions': meta['assumptions'],
        'wall_s': round(time.monotonic() - t0, 2),
        'violations': 1 if violation else 0,
    }
    if known:
        evidence['coverage']['known_findings_seen'] = known
    if errors:
        evidence['coverage']['errors'] = errors
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    with open(os.path.join(HERE, 'evidence', prop + '.json'), 'w') as fh:
        json.dump(evidence, fh, indent=1, sort_keys=True)
        fh.write('\n')
    entries = core.load_known()
    if violation:
        d = os.path.join(HERE, 'evidence', 'replays')
        os.makedirs(d, exist_ok=True)
        digest = hashlib.sha1(core.canonical(violation).encode()).hexdigest()[:12]
        path = os.path.join(d, '%s-%s.json' % (prop, digest))
        with open(path, 'w') as fh:
            json.dump(violation, fh, indent=1, sort_keys=True)
            fh.write('\n')
        print('%s: %s' % (violation['check'], violation['message'][:3000]))
        print('VIOLATION property=%s replay=%s' % (prop, path))
        return 1
    for e in errors:
        print('ERROR: ' + e)
    if errors:
        return 2
    for ident in sorted(known):
        print('KNOWN-FINDING: property=%s %s: %s' % (prop, ident, entries[ident]['what']))
    print('%s: held on %d cases (%d distinct non-trivial) in %.1f s' % (
        prop, evaluations, len(distinct), time.monotonic() - t0))
    return 0


def stop(p):
    import signal
    try:
        os.killpg(p.pid, signal.SIGKILL)
    except OSError:
        pass
    try:
        p.kill()
    except OSError:
        pass
    p.wait()


def listing(prop):
    setup_paths()
    mod = load(prop)
    print(json.dumps({
        'rule': mod.RULE, 'assumptions': mod.ASSUMPTIONS,
        'checks': [{'name': c.name, 'shards': c.shards, 'thorough_shards': c.thorough_shards}
                   for c in mod.CHECKS]}))


if __name__ == '__main__':
    if sys.argv[1] == '--worker':
        a = sys.argv[2:]
        worker(a[0], a[1], int(a[2]), int(a[3]), a[4], a[5], a[6])
        sys.exit(0)
    if sys.argv[1] == '--list':
        listing(sys.argv[2])
        sys.exit(0)
    sys.exit(main())
