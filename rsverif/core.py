"""What a property module uses to state its checks."""

import hashlib
import json
import os
import shutil
import signal
import tempfile
import time
import traceback

REPO = os.environ.get('RSVERIF_REPO', '/repo')
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
KNOWN_FILE = os.path.join(HERE, 'known_findings.json')


class Violation(Exception):
    """The property does not hold on this case."""


class CaseTimeout(BaseException):
    """A single case ran for far longer than any case should."""


class CaseStuck(BaseException):
    """A single case waited for far longer than any case should."""


STUCK = 60      # seconds


class Check(object):
    """One executable statement: a generator of cases, and an oracle.

    strategy - function without arguments returning a Hypothesis strategy of
               JSON-able cases (str, int, float, bool, None, list, dict)
    run      - function (case, ctx) that raises Violation (ctx.fail) when the
               property is broken; any other exception counts as broken too
    quick, thorough - number of cases per shard; shards run in parallel
    examples - fixed cases that are always run first
    """

    def __init__(self, name, strategy, run, quick=300, thorough=6000, shards=1,
                 thorough_shards=None, examples=(), case_seconds=20):
        self.name = name
        self.strategy = strategy
        self.run = run
        self.quick = quick
        self.thorough = thorough
        self.shards = shards
        self.thorough_shards = thorough_shards or max(shards, 4)
        self.examples = list(examples)
        self.case_seconds = case_seconds


def load_known():
    """Findings recorded for the tree as it stands: {id: entry}."""
    try:
        with open(KNOWN_FILE) as fh:
            data = json.load(fh)
    except FileNotFoundError:
        return {}
    return {e['id']: e for e in data.get('findings', [])}


def short(x):
    r = repr(x)
    return r if len(r) <= 600 else '%s ... %s' % (r[:400], r[-150:])


def canonical(case):
    return json.dumps(case, sort_keys=True, ensure_ascii=True)


class Ctx(object):
    """Per-case services and per-run counters."""

    def __init__(self, prop, scratch):
        self.prop = prop
        self.scratch = scratch
        self.known_entries = load_known()
        self.evaluations = 0
        self.nontrivial_hashes = set()
        self.samples = []
        self.labels = {}
        self.known_hits = {}
        self._dir = None
        self._nontrivial = False

    # --- used by the checks

    def fail(self, msg, **detail):
        if detail:
            msg += ' ' + ' '.join('%s=%r' % (k, detail[k]) for k in detail)
        raise Violation(msg)

    def expect(self, cond, msg, **detail):
        if not cond:
            self.fail(msg, **detail)

    def equal(self, got, want, what, **detail):
        if got != want:
            self.fail('%s: got %s, want %s' % (what, short(got), short(want)), **detail)

    def nontrivial(self, flag=True):
        self._nontrivial = self._nontrivial or bool(flag)

    def label(self, name, flag=True):
        if flag:
            self.labels[name] = self.labels.get(name, 0) + 1

    def known(self, ident, msg):
        """A deviation that matches a recorded finding exactly, else a violation."""
        if ident not in self.known_entries or self.known_entries[ident]['property'] != self.prop:
            self.fail(msg)
        self.known_hits.setdefault(ident, msg)

    @property
    def dir(self):
        """Fresh scratch directory of this case (also the working directory)."""
        if self._dir is None:
            self._dir = tempfile.mkdtemp(prefix='c', dir=self.scratch)
            # deep, so that a few '..' still end inside the scratch directory
            sub = os.path.join(self._dir, 'a', 'b', 'c', 'w')
            os.makedirs(sub)
            os.chdir(sub)
            self._sub = sub
        return self._sub

    @property
    def outer(self):
        """Top of this case's scratch area, several levels above dir."""
        self.dir
        return self._dir

    # --- used by the runner

    def run_case(self, check, case):
        """Run one case, with timeout, fresh globals and clean-up."""
        try:
            self._run_case(check, case)
        except CaseStuck:
            # Waiting for something that never comes, or a machine that was stopped?
            try:
                self._run_case(check, case)
            except CaseStuck:
                raise Violation('no answer within %d s (waiting for something that never comes?)' % STUCK)

    def _run_case(self, check, case):
        from rsverif import env
        self._nontrivial = False
        self._dir = None
        env.reset()

        def on_alarm(signum, frame):
            raise CaseTimeout()
        signal.signal(signal.SIGPROF, on_alarm)
        signal.setitimer(signal.ITIMER_PROF, check.case_seconds)

        def on_stuck(signum, frame):
            raise CaseStuck()
        signal.signal(signal.SIGALRM, on_stuck)
        signal.setitimer(signal.ITIMER_REAL, STUCK)
        try:
            with env.quiet():
                check.run(case, self)
        except CaseTimeout:
            raise Violation('no answer within %d s of processing (an endless loop?)' % check.case_seconds)
        except (SystemExit, KeyboardInterrupt) as e:
            raise Violation('unexpected %r' % e)
        finally:
            signal.setitimer(signal.ITIMER_PROF, 0)
            signal.setitimer(signal.ITIMER_REAL, 0)
            env.reset()
            if self._dir is not None:
                os.chdir(self.scratch)
                for top, dirs, files in os.walk(self._dir):
                    for d in dirs:
                        p = os.path.join(top, d)
                        if not os.path.islink(p):
                            os.chmod(p, 0o700)
                shutil.rmtree(self._dir, ignore_errors=True)
                self._dir = None
        self.evaluations += 1
        if self._nontrivial:
            text = check.name + canonical(case)
            h = hashlib.sha1(text.encode()).hexdigest()[:16]
            if h not in self.nontrivial_hashes:
                self.nontrivial_hashes.add(h)
                if len(self.samples) < 3 and len(text) < 4000 and (self.evaluations > 20 or len(self.samples) < 1):
                    self.samples.append({'check': check.name, 'case': case})


def describe_exception(exc):
    tb = traceback.extract_tb(exc.__traceback__)
    where = ['%s:%d in %s' % (f.filename, f.lineno, f.name) for f in tb[-4:]]
    return '%s: %s [%s]' % (type(exc).__name__, exc, ' <- '.join(reversed(where)))


def now():
    return time.monotonic()
