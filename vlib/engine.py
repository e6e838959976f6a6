"""A small property-based testing engine (choice-sequence style).

Every random decision of a case is an integer drawn through `Data`.  The list
of drawn integers *is* the case: shrinking edits that list (delete spans, zero,
lower values) and replays it, and a replay file stores it.  A run is a pure
function of the code under test, VERIF_SEED and the case counts.

A check function `fn(d)` either returns (case held), raises `Violation`
(property broken), or raises `Reject` (input outside the domain; counted).
Any other exception raised while the case runs is a violation too: the checks
state explicitly where the code under test is allowed to raise.
"""

import gc
import hashlib
import json
import os
import random
import signal
import sys
import time
import traceback


class Violation(Exception):
    pass


class Reject(Exception):
    pass


class HarnessError(Exception):
    """The machinery itself cannot work (missing tool, ...): not a verdict."""


class Overrun(Exception):
    """Replay ran out of choices (while shrinking)."""


# A case that takes more memory than this (resident) does not end either
MEMORY_LIMIT = 3200 << 20


class CaseTimeout(BaseException):
    pass


def derive(*parts):
    h = hashlib.sha256(repr(parts).encode()).digest()
    return int.from_bytes(h[:8], 'big')


class Data(object):
    """Source of all choices of one case."""

    def __init__(self, rng=None, prefix=None, max_choices=200000):
        self.rng = rng
        self.prefix = prefix
        self.choices = []          # ints drawn
        self.spans = []            # (start, end) of structured draws
        self.labels = {}
        self.notes = []
        self.trivial = True
        self.key = None
        self.max_choices = max_choices

    # -- primitive -------------------------------------------------------
    def draw(self, n, gen=None):
        """An integer in [0, n).  0 is the simplest choice."""
        i = len(self.choices)
        if i >= self.max_choices:
            raise Overrun()
        if self.prefix is not None:
            if i < len(self.prefix):
                v = self.prefix[i]
                if v >= n:
                    v = n - 1
            else:
                v = 0
        elif gen is not None:
            v = gen(self.rng)
        else:
            v = self.rng.randrange(n)
        self.choices.append(v)
        return v

    # -- derived ---------------------------------------------------------
    def int(self, lo, hi):
        """Uniform integer in [lo, hi]; shrinks towards lo."""
        return lo + self.draw(hi - lo + 1)

    def size(self, lo, hi, mean=None):
        """Size-like integer, mostly small."""
        n = hi - lo + 1
        if n <= 1:
            return lo
        m = mean if mean is not None else max(1, n // 8)

        def gen(r):
            v = int(r.expovariate(1.0 / m))
            return v if v < n else r.randrange(n)
        return lo + self.draw(n, gen)

    def edge_int(self, lo, hi, edges=()):
        """Integer with a bias to the ends and to the given edges (+-1)."""
        cand = []
        for e in edges:
            for k in (-1, 0, 1):
                if lo <= e + k <= hi:
                    cand.append(e + k)
        cand += [lo, hi]
        mode = self.draw(4)
        if mode == 1:
            return cand[self.draw(len(cand))]
        if mode == 2:
            return lo + self.draw(min(hi - lo + 1, 16))
        return self.int(lo, hi)

    def bool(self, p=0.5):
        return bool(self.draw(2, lambda r: 1 if r.random() < p else 0))

    def choice(self, seq):
        return seq[self.draw(len(seq))]

    def weighted(self, pairs):
        """pairs: [(weight, value)]"""
        total = sum(w for w, _ in pairs)

        def gen(r):
            x = r.random() * total
            for i, (w, _) in enumerate(pairs):
                x -= w
                if x < 0:
                    return i
            return len(pairs) - 1
        return pairs[self.draw(len(pairs), gen)][1]

    def bytes(self, n):
        """n bytes; the first choice selects a cheap pattern so that large
        bodies cost few choices."""
        if n == 0:
            return b''
        if n <= 24:
            return bytes([self.draw(256) for _ in range(n)])
        mode = self.draw(4)
        if mode == 0:
            return bytes([self.draw(256)]) * n
        seed = self.draw(1 << 32)
        if mode == 1:
            # text-like
            r = random.Random(seed)
            return bytes([r.choice(b'abcdefgh \r\n-=\x00\xff') for _ in range(n)])
        return random.Random(seed).getrandbits(8 * n).to_bytes(n, 'big')

    def blob(self, lo, hi, mean=None, edges=()):
        """bytes of variable length"""
        if edges and self.draw(4) == 1:
            cand = [e + k for e in edges for k in (-1, 0, 1)
                    if lo <= e + k <= hi]
            n = cand[self.draw(len(cand))] if cand else lo
        else:
            n = self.size(lo, hi, mean)
        return self.bytes(n)

    def text(self, lo, hi, alphabet=None, mean=None):
        n = self.size(lo, hi, mean)
        out = []
        for _ in range(n):
            if alphabet is not None:
                out.append(alphabet[self.draw(len(alphabet))])
            else:
                out.append(self.char())
        return ''.join(out)

    def char(self):
        k = self.draw(10)
        if k < 6:
            return chr(self.int(0x20, 0x7e))
        if k == 6:
            return self.choice('\n\r\t\x00\x7f \x0b\x0c\x1c\x85\u2028\ufeff')
        if k == 7:
            return chr(self.int(0xa0, 0x24f))
        if k == 8:
            return chr(self.int(0x400, 0xd7ff))
        return chr(self.int(0x1f300, 0x1f6ff))

    def list(self, lo, hi, fn, mean=None):
        n = self.size(lo, hi, mean)
        out = []
        for _ in range(n):
            s = len(self.choices)
            out.append(fn(self))
            self.spans.append((s, len(self.choices)))
        return out

    def span(self, fn, *a):
        s = len(self.choices)
        r = fn(self, *a)
        self.spans.append((s, len(self.choices)))
        return r

    def shuffle(self, seq):
        seq = list(seq)
        for i in range(len(seq) - 1):
            j = i + self.draw(len(seq) - i)
            seq[i], seq[j] = seq[j], seq[i]
        return seq

    def bigint(self, bits):
        """A non-negative integer of at most `bits` bits, biased to numbers
        around powers of two, runs of zeros/ones and small ones."""
        k = self.draw(6)
        if k == 0:
            return self.draw(min(1 << bits, 300))
        n = self.int(1, bits)
        if k == 1:
            return max(0, (1 << n) + self.int(-2, 2))
        if k == 2:
            return (1 << n) - 1 - (self.draw(1 << min(n, 12)))\
                if n > 12 else (1 << n) - 1
        if k == 3:
            return (1 << (n - 1)) + self.draw(1 << min(n - 1, 20))
        if k == 4:
            return ((1 << n) - 1) ^ (1 << self.draw(n))
        seed = self.draw(1 << 32)
        return random.Random(seed).getrandbits(n) | (1 << (n - 1))

    # -- classification ----------------------------------------------------
    def label(self, name):
        self.labels[name] = self.labels.get(name, 0) + 1

    def note(self, key, value):
        self.notes.append((key, short(value)))

    def nontrivial(self, cond=True):
        if cond:
            self.trivial = False

    def reject(self):
        raise Reject()


def short(v, n=160):
    if isinstance(v, (bytes, bytearray)):
        h = bytes(v)
        if len(h) > 48:
            return '<%d bytes %s..%s>' % (len(h), h[:24].hex(), h[-8:].hex())
        return 'hex:' + h.hex()
    if isinstance(v, str):
        s = repr(v)
    else:
        s = repr(v)
    if len(s) > n:
        s = s[:n - 20] + '...(%d)' % len(s)
    return s


def check(cond, msg, *args):
    if not cond:
        raise Violation(msg + ''.join(' | ' + short(a) for a in args))


def eq(actual, expected, what):
    if type(actual) is bytearray:
        actual = bytes(actual)
    if type(expected) is bytearray:
        expected = bytes(expected)
    if actual != expected:
        raise Violation('%s: got %s, expected %s' % (
            what, short(actual, 400), short(expected, 400)))


class Prop(object):
    def __init__(self, name, fn, quick, thorough, rule, timeout, hang):
        self.name = name
        self.fn = fn
        self.quick = quick
        self.thorough = thorough
        self.rule = rule
        self.timeout = timeout
        self.hang = hang


class Suite(object):
    """One property: its sub-checks, domain and bookkeeping."""

    def __init__(self, pid, rule, crash_is_violation=False,
                 memory=None):
        self.crash = crash_is_violation
        self.memory = memory
        self.pid = pid
        self.rule = rule
        self.props = []
        self.known = []
        self.fixed_cases = []

    def prop(self, quick=200, thorough=None, rule='', timeout=100,
             hang_is_violation=True):
        def deco(fn):
            self.props.append(Prop(fn.__name__, fn, quick,
                                   thorough or quick * 15, rule, timeout,
                                   hang_is_violation))
            return fn
        return deco

    def known_probe(self, key):
        """Registers fn() that reproduces a listed finding: it returns a
        description while the defect is there and None when it is gone."""
        def deco(fn):
            self.known.append((key, fn))
            return fn
        return deco


def resident():
    with open('/proc/self/statm') as f:
        return int(f.read().split()[1]) * 4096


def run_case(prop, rng=None, prefix=None, memory=MEMORY_LIMIT):
    """-> (status, data, detail): status in ok/reject/fail/overrun/hang"""
    d = Data(rng=rng, prefix=prefix)
    start = time.monotonic()

    def on_alarm(signum, frame):
        if time.monotonic() - start >= prop.timeout:
            raise CaseTimeout('within %d s' % prop.timeout)
        if resident() > memory:
            raise CaseTimeout('within %d MB of memory' % (memory >> 20))
    old = signal.signal(signal.SIGALRM, on_alarm)
    signal.setitimer(signal.ITIMER_REAL, 2, 2)
    try:
        try:
            prop.fn(d)
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)
            signal.signal(signal.SIGALRM, old)
        return 'ok', d, None
    except Reject:
        return 'reject', d, None
    except Overrun:
        return 'overrun', d, None
    except CaseTimeout as e:
        return 'hang', d, 'case did not finish %s' % e
    except (HarnessError, MemoryError, KeyboardInterrupt):
        raise
    except Violation as e:
        return 'fail', d, str(e)
    except RecursionError as e:
        return 'fail', d, 'RecursionError: %s' % e
    except Exception as e:
        tb = traceback.extract_tb(sys.exc_info()[2])
        where = ' <- '.join('%s:%d %s' % (os.path.basename(f.filename),
                                          f.lineno, f.name)
                            for f in reversed(tb[-4:]))
        return 'fail', d, 'unexpected %s: %s [%s]' % (
            type(e).__name__, short(str(e), 300), where)


def shrink(prop, choices, detail, budget=600, seconds=40):
    best, best_detail = list(choices), detail
    t0 = time.time()
    runs = [0]
    seen = set()

    def attempt(cand):
        key = tuple(cand)
        if key in seen or runs[0] >= budget or time.time() - t0 > seconds:
            return None
        seen.add(key)
        runs[0] += 1
        status, d, det = run_case(prop, prefix=cand)
        if status == 'fail':
            got = list(d.choices)
            while got and got[-1] == 0:
                got.pop()
            if (len(got), sum(got), got) < (len(best), sum(best), best):
                return got, det, d
        return None
    status, d, det = run_case(prop, prefix=best)
    if status != 'fail':
        return best, detail, None, runs[0]   # not reproducible by replay
    bestd = d
    improved = True
    while improved and runs[0] < budget and time.time() - t0 < seconds:
        improved = False
        for (s, e) in sorted(bestd.spans, key=lambda x: x[0] - x[1]):
            r = attempt(best[:s] + best[e:])
            if r:
                best, best_detail, bestd = r
                improved = True
                break
        for k in (64, 32, 16, 8, 4, 2, 1):
            i = len(best) - k
            while i >= 0:
                r = attempt(best[:i] + best[i + k:])
                if r:
                    best, best_detail, bestd = r
                    improved = True
                elif k > 1:
                    r = attempt(best[:i] + [0] * k + best[i + k:])
                    if r:
                        best, best_detail, bestd = r
                        improved = True
                i -= k
        for i in range(len(best)):
            if i >= len(best):
                break
            lo, hi = 0, best[i]
            while lo < hi:
                mid = (lo + hi) // 2
                r = attempt(best[:i] + [mid] + best[i + 1:])
                if r:
                    best, best_detail, bestd = r
                    improved = True
                    if i >= len(best):
                        break
                    hi = min(mid, best[i])
                else:
                    lo = mid + 1
    return best, best_detail, bestd, runs[0]


def run_chunk(suite, prop, seed, start, stop, deadline=None, progress=None):
    """Runs cases start..stop of one sub-check; picklable summary."""
    out = {'prop': prop.name, 'n': 0, 'rejects': 0, 'nontrivial': set(),
           'labels': {}, 'samples': [], 'failure': None, 'timeout': None,
           'skipped': 0}
    for i in range(start, stop):
        if deadline is not None and time.time() > deadline:
            out['skipped'] = stop - i
            break
        if progress is not None:
            progress(i)
        rng = random.Random(derive(seed, suite.pid, prop.name, i))
        status, d, detail = run_case(prop, rng=rng)
        if status == 'hang' and prop.hang:
            # confirm before calling it a violation
            rng = random.Random(derive(seed, suite.pid, prop.name, i))
            gc.collect()
            status, d, detail = run_case(prop, rng=rng, memory=max(
                MEMORY_LIMIT, resident() + (1 << 30)))
        out['n'] += 1
        if status in ('reject', 'overrun'):
            out['rejects'] += 1
            continue
        for k, v in d.labels.items():
            out['labels'][k] = out['labels'].get(k, 0) + 1
        if not d.trivial:
            out['nontrivial'].add(
                hashlib.sha256(repr(d.choices).encode()).digest()[:8])
            if len(out['samples']) < 2:
                out['samples'].append({'subcheck': prop.name, 'index': i,
                                       'notes': dict(d.notes)})
        if status == 'hang' and not prop.hang:
            out['timeout'] = 'case %d: %s' % (i, detail)
            break
        if status in ('fail', 'hang'):
            if status == 'hang':
                best, det, bd, runs = list(d.choices), detail, d, 0
            else:
                best, det, bd, runs = shrink(prop, d.choices, detail)
                if bd is None:
                    bd = d
            out['failure'] = {
                'property': suite.pid, 'subcheck': prop.name, 'seed': seed,
                'index': i, 'detail': det, 'original_detail': detail,
                'choices': best, 'notes': bd.notes,
                'shrink_runs': runs}
            break
    return out
