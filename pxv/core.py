"""Runs one property's generated cases in one process and reports what happened."""
import base64
import hashlib
import os
import pickle
import random
import time
import traceback

from hypothesis import HealthCheck, Phase, given, seed, settings

from .live import DefinitionFailed, Hang, Violation

SHRINK_S = {'quick': 40, 'thorough': 120}
PART_S = {'quick': 300, 'thorough': 3000}


class Part:
    """One generator with its oracle.

    quick / thorough are case counts per worker process; fn(case, T) raises Violation.
    """

    def __init__(self, name, strategy, fn, quick, thorough=None, backends=('lxml', 'std')):
        self.name = name
        self.strategy = strategy
        self.fn = fn
        self.quick = quick
        self.thorough = thorough if thorough is not None else quick * 20
        self.backends = backends


class Tally:
    def __init__(self):
        self.evaluations = 0
        self.counts = {}
        self.keys = set()
        self.samples = []
        self.offered = 0
        self.rnd = random.Random(1)
        self.truncated = []

    def count(self, label, n=1):
        self.counts[label] = self.counts.get(label, 0) + n

    def nontrivial(self, *key):
        self.keys.add(hashlib.blake2b('\0'.join(map(str, key)).encode('utf-8', 'surrogatepass'), digest_size=8).hexdigest())

    def sample(self, text, cap=8):
        """Keep a few of the samples offered, evenly spread over all of them."""
        self.offered += 1
        if len(self.samples) < cap:
            self.samples.append('')
            slot = len(self.samples) - 1
        else:
            slot = self.rnd.randrange(self.offered)
        if slot < cap:
            self.samples[slot] = text if len(text) <= 2500 else text[:2500] + '...'


def from_sut(exc):
    """Did the exception pass through the code under test?"""
    from . import env
    root = os.path.realpath(os.path.join(env.REPO, 'pydantic_xml')) + os.sep
    seen = set()
    while exc is not None and id(exc) not in seen:
        seen.add(id(exc))
        for frame, _ in traceback.walk_tb(exc.__traceback__):
            if os.path.realpath(frame.f_code.co_filename).startswith(root):
                return True
        exc = exc.__cause__ or exc.__context__
    return False


class HarnessError(BaseException):
    """A mistake in the harness: ends the run at once, nothing is shrunk."""


def run_one(part, case, T):
    """Runs a case; any misbehaviour of the code under test comes out as a Violation."""
    try:
        part.fn(case, T)
    except Violation:
        raise
    except Hang as e:
        raise Violation('the call does not return: %s' % e) from None
    except DefinitionFailed as e:
        if isinstance(e.exc, Hang):
            raise Violation('defining the model does not return') from None
        if isinstance(e.exc, (SyntaxError, NameError, ImportError)) and not from_sut(e.exc):
            raise
        from .spec import universe_src
        u = getattr(case, 'u', None)
        raise Violation('a supported model definition fails: %r' % e.exc, source=universe_src(u) if u is not None else '',
                        traceback=''.join(traceback.format_exception(e.exc))[-3000:]) from None
    except Exception as e:
        if from_sut(e):
            raise Violation('unexpected %s: %s' % (type(e).__name__, e), source=case_source(case),
                            traceback=traceback.format_exc()[-3000:]) from None
        raise


def case_source(case):
    u = getattr(case, 'u', None)
    if u is not None:
        from .spec import universe_src
        return universe_src(u)
    return repr(case)


def describe(v, case):
    out = [v.what]
    for k, x in v.details.items():
        x = x if isinstance(x, str) else repr(x)
        out.append('--- %s\n%s' % (k, x.rstrip('\n')))
    if 'source' not in v.details:
        out.append('--- case\n%s' % case_source(case))
    return '\n'.join(out)


def run_part(part, pi, tier, sd, T, budget_scale=1.0):
    """Returns a failure dict or None."""
    n = max(1, int((part.quick if tier == 'quick' else part.thorough) * budget_scale))
    found = {}
    t0 = time.monotonic()

    def body(case):
        now = time.monotonic()
        if found:
            if now - found['t'] > SHRINK_S[tier]:
                return
        elif now - t0 > PART_S[tier]:
            if part.name not in T.truncated:
                T.truncated.append(part.name)
            return
        else:
            T.evaluations += 1
            T.count('part:' + part.name)
        try:
            run_one(part, case, Tally() if found else T)
        except Violation as v:
            blob = pickle.dumps(case)
            size = len(blob)
            found.setdefault('t', now)
            if 'size' not in found or size <= found['size']:
                found.update(size=size, blob=base64.b64encode(blob).decode(), what=v.what, text=describe(v, case), part=part.name)
            raise
        except Exception as e:
            raise HarnessError(traceback.format_exc()[-6000:] + '\n' + case_source(case)[-3000:]) from e

    test = seed(sd * 1009 + pi)(settings(
        max_examples=n, database=None, deadline=None, suppress_health_check=list(HealthCheck),
        phases=(Phase.generate, Phase.shrink), report_multiple_bugs=False, print_blob=False)(given(part.strategy())(body)))
    try:
        test()
    except BaseException as e:
        if not found:
            raise
        if isinstance(e, (KeyboardInterrupt, SystemExit, MemoryError)):
            raise
    return found or None
