"""Shared machinery of the checks: bounded exhaustive case enumeration, guarded execution, violation reporting,
known findings, evidence."""
import contextlib
import io
import json
import logging
import multiprocessing as mp
import os
import shutil
import signal
import sys
import tempfile
import time
import traceback
import warnings

warnings.simplefilter('ignore')
from . import nondet

nondet.install()
logging.disable(logging.CRITICAL)

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('MC_REPO', '/repo')
EVID = os.environ.get('MC_EVIDENCE', os.path.join(VERIF, 'evidence'))
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
TIER = os.environ.get('VERIF_TIER', 'quick')
THOROUGH = TIER == 'thorough'
if sys.path[0] != REPO:
    sys.path.insert(0, REPO)


# whatever the code under test leaves behind in temporary files goes away with this scratch directory
SCRATCH = tempfile.mkdtemp(prefix='mc_scratch_')
tempfile.tempdir = SCRATCH


class CaseTimeout(BaseException):
    pass


class Fail(AssertionError):
    """A property violation found by an oracle. `key` identifies it for the known findings file."""

    def __init__(self, msg, key=None):
        super().__init__(msg)
        self.key = key


def expect(cond, msg, key=None):
    if not cond:
        raise Fail(msg() if callable(msg) else msg, key)


def expect_eq(got, want, msg, key=None):
    if not (got == want):
        raise Fail('%s: got %r, expected %r' % (msg() if callable(msg) else msg, got, want), key)


def _alarm(_s, _f):
    raise CaseTimeout()


def in_repo_traceback(e):
    for f in traceback.extract_tb(e.__traceback__):
        if os.path.abspath(f.filename).startswith(REPO + os.sep):
            return True
    return False


class Rec:
    """Counters and violations of a run (or of one worker of it)."""

    def __init__(self):
        self.states = 0
        self.transitions = 0
        self.traces = 0
        self.cases = 0
        self.nontrivial = 0
        self.samples = []
        self.viol = []  # (key, msg, replay)
        self.seen = set()
        self.harness = []
        self.extra = {}
        self.outcomes = set()

    def state(self, canon=None):
        if canon is None:
            self.states += 1
            return True
        h = hash((_PART, canon))
        if h in self.seen:
            return False
        self.seen.add(h)
        self.states += 1
        return True

    def trans(self, n=1):
        self.transitions += n

    def trace(self, n=1):
        self.traces += n

    def outcome(self, o):
        if len(self.outcomes) < 100000:
            self.outcomes.add(hash(repr(o)))

    def sample(self, s, limit=4):
        if len(self.samples) < limit:
            self.samples.append(s)

    def count(self, name, n=1):
        self.extra[name] = self.extra.get(name, 0) + n

    def violate(self, msg, replay, key=None):
        self.viol.append((key, msg, replay))

    def merge(self, o):
        if o.seen:
            anon = o.states - len(o.seen)
            new = o.seen - self.seen
            self.seen |= new
            self.states += anon + len(new)
        else:
            self.states += o.states
        self.transitions += o.transitions
        self.traces += o.traces
        self.cases += o.cases
        self.nontrivial += o.nontrivial
        self.samples.extend(o.samples)
        self.viol.extend(o.viol)
        self.harness.extend(o.harness)
        self.outcomes |= o.outcomes
        for k, v in o.extra.items():
            self.extra[k] = self.extra.get(k, 0) + v


_CASES = None
_PART = ''
_FN = None
_TMO = None
MAX_VIOL = 5


def _guard(rec, fn, case, timeout):
    """Run one case; exceptions raised through the code under test are violations."""
    rec.cases += 1
    buf = io.StringIO()
    try:
        signal.signal(signal.SIGALRM, _alarm)
        signal.setitimer(signal.ITIMER_REAL, timeout)
        try:
            with contextlib.redirect_stdout(buf):
                fn(rec, case)
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)
    except CaseTimeout:
        rec.violate('no answer within %ss (non-termination or livelock)' % timeout, {'case': repr(case)}, 'timeout')
    except Fail as e:
        rec.violate(str(e), {'case': repr(case)}, e.key)
    except nondet.Divergence as e:
        rec.violate('not a function of its inputs and of the random choices: replaying the same choices diverged: %s'
                    % e, {'case': repr(case)}, 'divergence')
    except BaseException as e:
        if isinstance(e, (KeyboardInterrupt, SystemExit)) and not in_repo_traceback(e):
            raise
        tb = traceback.format_exc()
        if in_repo_traceback(e) or isinstance(e, (ImportError, RecursionError)):
            rec.violate('unexpected exception %s: %s' % (type(e).__name__, e), {'case': repr(case), 'traceback': tb},
                        'exc:%s' % type(e).__name__)
        else:
            # raised in the harness: typically because the code under test returned something of an unexpected shape
            rec.violate('result of the code under test could not be interpreted: %s: %s' % (type(e).__name__, e),
                        {'case': repr(case), 'traceback': tb}, 'shape:%s' % type(e).__name__)


def _worker(idx):
    rec = Rec()
    for i in idx:
        _guard(rec, _FN, _CASES[i], _TMO)
        if len(rec.viol) > MAX_VIOL * 20 or sum(1 for v in rec.viol if v[0] == 'timeout') >= 2:
            break
    if len(rec.seen) > 400000:
        rec.seen = set()
    return rec


class Check(Rec):
    def __init__(self, pid, level='model_checking', rule='', assumptions=(), scope=''):
        super().__init__()
        self.pid = pid
        self.level = level
        self.rule = rule
        self.assumptions = list(assumptions)
        self.scope = scope
        self.t0 = time.time()
        self.exhaustive = True
        self.budget = float(os.environ.get('MC_BUDGET', '0') or 0)
        self.parts = {}

    def run(self, cases, fn, name=None, procs=8, timeout=30, chunk=None):
        """Enumerate all cases through fn(rec, case)."""
        global _CASES, _FN, _TMO, _PART
        _PART = name or fn.__name__
        t = time.time()
        cases = list(cases)
        before = (self.states, self.transitions, self.traces, self.cases, len(self.viol))
        if procs <= 1 or len(cases) < 2:
            for c in cases:
                _guard(self, fn, c, timeout)
                if len(self.viol) > MAX_VIOL * 20:
                    break
        else:
            _CASES, _FN, _TMO = cases, fn, timeout
            n = min(procs, len(cases))
            k = chunk or max(1, len(cases) // (n * 4))
            jobs = [list(range(i, min(i + k, len(cases)))) for i in range(0, len(cases), k)]
            ctx = mp.get_context('fork')
            sys.stdout.flush()
            with ctx.Pool(n) as pool:
                for rec in pool.imap(_worker, jobs):
                    self.merge(rec)
        self.parts[name or fn.__name__] = {
            'cases': self.cases - before[3], 'states': self.states - before[0],
            'transitions': self.transitions - before[1], 'traces': self.traces - before[2],
            'wall_s': round(time.time() - t, 2)}

    def guard(self, name, fn, timeout=120):
        self.run([name], lambda rec, _c: fn(rec), name=name, procs=1, timeout=timeout)

    # ------------------------------------------------------------------------------------------------------ report
    def known(self):
        out = {}
        path = os.path.join(VERIF, 'known_findings.txt')
        if os.path.exists(path):
            for line in open(path):
                line = line.strip()
                if line.startswith('known: '):
                    parts = line[len('known: '):].split(' ', 2)
                    pid = parts[0].split('=', 1)[1]
                    key = parts[1].split('=', 1)[1]
                    if pid == self.pid:
                        out[key] = parts[2] if len(parts) > 2 else ''
        return out

    def finish(self):
        tempfile.tempdir = None
        shutil.rmtree(SCRATCH, ignore_errors=True)
        known = self.known()
        fresh = []
        hit = set()
        for key, msg, replay in self.viol:
            if key is not None and key in known:
                hit.add(key)
            else:
                fresh.append((key, msg, replay))
        for key in sorted(hit):
            print('KNOWN-FINDING: property=%s %s [%s]' % (self.pid, known[key], key))
        cov = {'states': self.states, 'transitions': self.transitions,
               'traces_validated_against_impl': self.traces,
               'samples': [s if isinstance(s, (str, dict, list)) else repr(s) for s in self.samples[:12]] or ['(none)'],
               'evaluations': self.cases, 'rule': self.rule, 'exhaustive': self.exhaustive,
               'distinct_outcomes': len(self.outcomes), 'scope': self.scope, 'parts': self.parts,
               'known_findings_seen': sorted(hit)}
        if self.level in ('exploration', 'fault_enumeration'):
            cov['distinct_nontrivial'] = self.nontrivial
        cov.update({k: v for k, v in self.extra.items() if k not in cov})
        ev = {'property': self.pid, 'tier': TIER if TIER in ('quick', 'thorough') else 'quick', 'seed': SEED,
              'level': self.level, 'coverage': cov, 'assumptions': self.assumptions,
              'wall_s': round(time.time() - self.t0, 2), 'violations': len(fresh)}
        os.makedirs(EVID, exist_ok=True)
        with open(os.path.join(EVID, self.pid + '.json'), 'w') as f:
            json.dump(ev, f, indent=1, default=repr)
        print('%s: cases=%d states=%d transitions=%d traces=%d outcomes=%d wall=%.1fs tier=%s' % (
            self.pid, self.cases, self.states, self.transitions, self.traces, len(self.outcomes),
            time.time() - self.t0, TIER))
        for k, v in self.parts.items():
            print('   %-40s %s' % (k, v))
        if self.harness:
            for h in self.harness[:5]:
                print('HARNESS ERROR', h)
            if not fresh:
                sys.stdout.flush()
                os._exit(2)
        if fresh:
            groups = {}
            for key, msg, replay in fresh:
                groups.setdefault((key, msg[:40]), []).append((key, msg, replay))
            d = os.path.join(EVID, 'replays')
            os.makedirs(d, exist_ok=True)
            for n, g in enumerate(list(groups.values())[:MAX_VIOL]):
                key, msg, replay = min(g, key=lambda v: len(repr(v[2].get('case', v[2]))) if isinstance(v[2], dict) else 0)
                path = os.path.join(d, '%s-%d.json' % (self.pid, n))
                with open(path, 'w') as f:
                    json.dump({'property': self.pid, 'key': key, 'message': msg, 'replay': replay,
                               'same_kind': len(g), 'how': './run.sh %s --case <substring of the case> re-runs only '
                               'the matching cases' % self.pid}, f, indent=1, default=repr)
                print('VIOLATION property=%s replay=%s' % (self.pid, path))
                print('   key=%s x%d: %s' % (key, len(g), msg[:600]))
                if os.environ.get('MC_VERBOSE') and isinstance(replay, dict):
                    print('   case=%s' % str(replay.get('case'))[:1500])
                    print('   ' + str(replay.get('traceback', ''))[-1800:].replace('\n', '\n   '))
            sys.stdout.flush()
            os._exit(1)
        sys.stdout.flush()
        os._exit(0)


def main(build):
    """Entry point of a check module: build(check-creating function). Import failures of the code under test are
    violations of the property (the feature does not exist any more)."""
    build()
