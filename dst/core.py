"""Core of the deterministic simulator.

One `Sim` exists per process.  It owns every source of nondeterminism the
worlds depend on: object hashes (and so the order in which sets of accounts,
people and recorded properties are walked), object identities handed to the
code under test, the wall clock, and the coin flips of the fault injectors.
`Sim.reset(seed)` makes everything that follows a pure function of `seed`, the
plan being executed and the code under test.
"""
import collections
import hashlib
import os
import random
import sys
import traceback
import zlib
from decimal import Decimal

REPO = os.environ.get('DST_REPO', '/repo')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Violation(Exception):
    """ The property under test does not hold. `kind` is its class. """

    def __init__(self, kind, message):
        super().__init__(message)
        self.kind = kind
        self.message = message


class ClientFault(Exception):
    """ Raised by a simulated client callable: an injected fault. """


class Interrupt(BaseException):
    """ Raised asynchronously in the code under test (like SIGINT). """


class PowerLoss(BaseException):
    """ The simulated machine stops here: nothing after this runs. """


class RunTimeout(BaseException):
    """ A run exceeded its wall limit; the runner re-judges it by steps. """


class Sim:
    """ Seeded decisions plus the record of what a run did. """

    def __init__(self):
        self.totals = {
            'ops': collections.Counter(), 'faults': collections.Counter(),
            'probes': collections.Counter(), 'known': collections.Counter()}
        self.states = set()
        self.sim_years = 0
        self.reset(0)

    def reset(self, seed):
        """ Starts a run. """
        self.seed = seed
        self.rng = random.Random('sim-%s' % (seed,))
        self.salt = self.rng.getrandbits(32)
        random.seed('global-%s' % (seed,))
        self._hashes = {}
        self._births = collections.Counter()
        self.hash_salt = self.salt
        self._keep = []
        self.log = []
        self.ops = 0
        self.run_years = 0
        self.fired = 0
        self.known_detail = {}
        self.steps_checked = 0

    # --- seams -------------------------------------------------------
    def hash_of(self, obj):
        """ The seeded hash of an object that hashes by identity. """
        key = id(obj)
        if key not in self._hashes:
            # Keep the object alive: its id must not be reused in a run.
            self._keep.append(obj)
            self._hashes[key] = self.rng.getrandbits(48)
        return self._hashes[key]

    def born(self, obj):
        """ Fixes the hash of a new object: by type, and order of birth.

        What a run looks at, and when, thus can't affect its hashes.
        """
        name = type(obj).__name__
        count = self._births[name]
        self._births[name] += 1
        self._keep.append(obj)
        text = '%s/%s/%s' % (self.hash_salt, name, count)
        self._hashes[id(obj)] = int.from_bytes(hashlib.blake2b(
            text.encode(), digest_size=6).digest(), 'big')

    def rehash(self, salt=None):
        """ Starts births over, perhaps with another hash salt. """
        self._births.clear()
        random.seed('global-%s-%s' % (self.seed, salt))
        self.hash_salt = self.salt if salt is None else salt

    def id_of(self, obj):
        """ A seeded stand-in for id(obj). """
        return self.hash_of(obj) * 8 + 0x10000000

    def order_key(self, name):
        """ Seeded position of a name in an unordered collection. """
        return zlib.crc32(('%s/%s' % (self.salt, name)).encode())

    # --- records -----------------------------------------------------
    def event(self, *parts):
        """ Adds to the run's event log (the determinism witness). """
        self.log.append(' '.join(show(p) for p in parts))

    def op(self, name):
        self.ops += 1
        self.totals['ops'][name] += 1

    def fault(self, name):
        self.fired += 1
        self.totals['faults'][name] += 1

    def probe(self, name, n=1):
        self.totals['probes'][name] += n

    def years(self, n=1):
        self.sim_years += n
        self.run_years += n

    def state(self, *parts):
        """ Records an abstract state/interleaving for coverage. """
        self.states.add(zlib.crc32(repr(parts).encode()))

    def known(self, finding, detail):
        """ A violation that is listed in known_findings.json. """
        self.totals['known'][finding] += 1
        self.known_detail.setdefault(finding, detail)

    def checked(self, n=1):
        self.steps_checked += n

    def digest(self):
        return hashlib.sha256('\n'.join(self.log).encode()).hexdigest()[:16]


SIM = Sim()


def show(val):
    """ A stable rendering for logs: no addresses, no set order. """
    if isinstance(val, float):
        return repr(val)
    if isinstance(val, Decimal):
        return 'D' + format(val, '.15g')
    if isinstance(val, dict):
        return '{%s}' % ', '.join(sorted(
            '%s: %s' % (show(k), show(v)) for k, v in val.items()))
    if isinstance(val, (list, tuple)):
        return '[%s]' % ', '.join(show(v) for v in val)
    if isinstance(val, (set, frozenset)):
        return '{%s}' % ', '.join(sorted(show(v) for v in val))
    if val is None or isinstance(val, (int, str, bool)):
        return str(val)
    return type(val).__name__


# --- comparisons --------------------------------------------------------
def num(val):
    """ Any numeric type as a float, for comparison with a model. """
    try:
        return float(val)
    except (TypeError, ValueError):
        raise Violation(
            'not-a-number', 'an amount turns out to be %s (%s)' % (
                type(val).__name__, show(val))) from None


def close(first, second, tol=1e-7, scale=1.0):
    """ Equality up to floating-point noise. """
    first, second = num(first), num(second)
    if first == second:
        return True
    if first != first or second != second:
        return first != first and second != second
    if abs(first) == float('inf') or abs(second) == float('inf'):
        return False
    return abs(first - second) <= tol * max(
        1.0, abs(first), abs(second), abs(scale))


def require(cond, kind, message, *args):
    """ Raises a Violation unless `cond`. """
    SIM.steps_checked += 1
    if not cond:
        raise Violation(kind, message % args if args else message)


def require_close(actual, expected, kind, what, tol=1e-7, scale=1.0):
    SIM.steps_checked += 1
    if not close(actual, expected, tol, scale):
        raise Violation(kind, '%s: got %s, expected %s' % (
            what, show(actual), show(expected)))


def nonzero(series, tol=1e-9):
    """ A {when: value} series as floats, without its zero entries. """
    result = {}
    for when, value in series.items():
        when, value = round(num(when), 12), num(value)
        result[when] = result.get(when, 0.0) + value
    return {w: v for w, v in result.items() if not abs(v) <= tol}


def series_close(first, second, tol=1e-7, scale=1.0):
    """ Two {when: value} series are the same up to zero entries. """
    first, second = nonzero(first, 0), nonzero(second, 0)
    return all(
        close(first.get(w, 0), second.get(w, 0), tol, scale)
        for w in set(first) | set(second))


def freeze(val):
    """ An immutable, exactly comparable copy of an observed value. """
    if isinstance(val, dict):
        return ('d',) + tuple(sorted(
            ((repr(k) if not isinstance(k, (int, float, Decimal))
              else repr(float(k))), freeze(v)) for k, v in val.items()))
    if isinstance(val, (list, tuple)):
        return ('l',) + tuple(freeze(v) for v in val)
    if isinstance(val, (set, frozenset)):
        return ('s',) + tuple(sorted(freeze(v) for v in val))
    if isinstance(val, Decimal):
        return ('n', float(val))
    if isinstance(val, bool):
        return ('b', val)
    if isinstance(val, (int, float)):
        return ('n', float(val))
    if val is None or isinstance(val, str):
        return ('x', repr(val))
    return ('o', type(val).__name__)


def frozen_close(first, second, tol=1e-9):
    """ freeze()d values equal up to floating-point noise and zeros. """
    if first == second:
        return True
    if type(first) is not type(second):
        return False
    if isinstance(first, tuple):
        if first and second and first[0] == 'd' and second[0] == 'd':
            one, two = dict(first[1:]), dict(second[1:])
            zero = ('n', 0.0)
            return all(
                frozen_close(one.get(k, zero), two.get(k, zero), tol)
                for k in set(one) | set(two))
        if len(first) != len(second):
            return False
        return all(frozen_close(a, b, tol) for a, b in zip(first, second))
    if isinstance(first, float):
        return close(first, second, tol)
    return False


def innermost_file(exc):
    """ The file of the innermost frame of an exception's traceback. """
    frames = traceback.extract_tb(exc.__traceback__)
    return frames[-1].filename if frames else ''


def blame_code(exc):
    """ True if the exception arose in the code under test.

    An exception whose traceback passes through the repository, or which
    was raised by a library called from it, is the code's. One which
    never enters the repository is the harness's.
    """
    frames = traceback.extract_tb(exc.__traceback__)
    last_repo = max(
        (i for i, f in enumerate(frames)
         if f.filename.startswith(REPO + os.sep)), default=-1)
    last_verif = max(
        (i for i, f in enumerate(frames)
         if f.filename.startswith(VERIF + os.sep)), default=-1)
    if isinstance(exc, RecursionError):
        # (It may be a hash or a client's function that runs out of stack.)
        return sum(f.filename.startswith(REPO + os.sep) for f in frames) > 100
    return last_repo > last_verif


def where(exc):
    """ The innermost function of the repository which an exception passed. """
    result = ''
    for frame in traceback.extract_tb(exc.__traceback__):
        if frame.filename.startswith(REPO + os.sep):
            result = frame.name
    return result


def describe(exc):
    """ One line on an unexpected exception, without line numbers. """
    frames = traceback.extract_tb(exc.__traceback__)
    where = ''
    for frame in frames:
        if frame.filename.startswith(REPO + os.sep):
            where = '%s:%s' % (
                os.path.relpath(frame.filename, REPO), frame.name)
    return '%s: %s (in %s)' % (type(exc).__name__, str(exc)[:200], where)
