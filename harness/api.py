"""What a check module is made of."""
import hashlib

from harness.bootstrap import HarnessError


class Violation(Exception):
    """The property does not hold for this case."""


def require(cond, message, *args):
    if not cond:
        raise Violation(message.format(*args) if args else message)


def same(actual, expected, what):
    if actual != expected or type(actual) is bool and type(expected) is not bool:
        raise Violation(f"{what}: got {short(actual)}, expected {short(expected)}")


def short(x, limit=400):
    try:
        s = repr(x)
    except Exception as err:                # a broken __repr__ must not mask the verdict
        s = f"<unrepresentable {type(x).__name__}: {err!r}>"
    return s if len(s) <= limit else s[:limit] + f"...({len(s)} chars)"


def raises(kinds, fn, what, allow=()):
    """fn() must raise one of `kinds`.  Returns the exception."""
    try:
        result = fn()
    except kinds as err:
        return err
    except HarnessError:
        raise
    except Exception as err:
        raise Violation(f"{what}: raised {type(err).__name__}: {err}, expected "
                        f"{names(kinds)}") from err
    raise Violation(f"{what}: returned {short(result)}, expected {names(kinds)}")


def names(kinds):
    if isinstance(kinds, tuple):
        return " or ".join(k.__name__ for k in kinds)
    return kinds.__name__


class Ctx:
    """Per-case classification, filled in by the check while it runs."""
    __slots__ = ("labels", "nt", "hung")

    def __init__(self):
        self.labels = set()
        self.nt = self.hung = False

    def label(self, *names):
        self.labels.update(names)

    def nontrivial(self, cond=True):
        if cond:
            self.nt = True


class Sub:
    """One generated check.

    strategy: zero-argument callable returning a hypothesis strategy whose values are plain
              literals (ints, bytes, str, bool, None, tuples, lists, dicts).
    run:      run(case, ctx), deterministic, raises on violation.
    quick/thorough: number of cases over all workers.
    cases:    instead of a strategy, a function tier -> iterable of literal cases (enumeration).
    """
    def __init__(self, name, strategy=None, run=None, quick=2000, thorough=None, cases=None,
                 rule="", serial=False):
        self.name = name
        self.strategy = strategy
        self.run = run
        self.quick = quick
        self.thorough = thorough if thorough is not None else quick * 20
        self.cases = cases
        self.rule = rule
        self.serial = serial


def digest(case):
    return hashlib.blake2b(repr(case).encode(), digest_size=8).digest()
