"""What a check module is made of."""
import contextlib
import signal
import time


class Fail(Exception):
    """A concrete input on which the real code breaks the property."""

    def __init__(self, what, case=None, key=None):
        super().__init__(what)
        self.what = what
        self.case = case
        self.key = key


class Hang(BaseException):
    """A call on the real code did not finish in time."""


@contextlib.contextmanager
def limit(seconds, what='call', case=None):
    """Fail when the body does not end within the time limit."""

    def on(_s, _f):
        raise Hang

    old = signal.signal(signal.SIGALRM, on)
    signal.setitimer(signal.ITIMER_REAL, seconds)
    try:
        yield
    except Hang:
        raise Fail(f'{what} did not finish within {seconds} s', case) from None
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)


class Task:
    """A group of proof obligations, generated and discharged in a process of its own."""

    def __init__(self, label, fn, bounded=None, functions=(), timeout=240):
        self.label = label
        self.fn = fn
        self.bounded = bounded      # None: unbounded proof; else the stated bound
        self.functions = list(functions)
        self.timeout = timeout


class Log:
    """What a monitor run covered."""

    def __init__(self, deadline, seed=0, tier='quick', known=()):
        self.deadline = deadline
        self.seed = seed
        self.tier = tier
        self.evaluations = 0
        self.keys = set()
        self.samples = []
        self.known_keys = set(known)
        self.known_hits = {}

    def more(self):
        return time.time() < self.deadline

    def case(self, key, nontrivial=True, sample=None):
        self.evaluations += 1
        if nontrivial:
            self.keys.add(hash(key))
        if sample is not None and len(self.samples) < 5:
            self.samples.append(sample)
        elif sample is None and len(self.samples) < 5:
            self.samples.append(str(key)[:300])

    def finding(self, key, what, case=None):
        """A failure of a class that may be a listed known finding."""
        if key in self.known_keys:
            self.known_hits[key] = what
            return
        raise Fail(what, case, key)
