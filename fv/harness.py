"""What property modules use: Group, fail(), excluded(), the per-case runner."""
import json
import signal
import hashlib


class Violation(AssertionError):
    """The code under test broke the property on this case."""


class Excluded(Exception):
    """The case lies in a class which is excluded by construction (a recorded finding / outside the domain)."""


class CaseTimeout(BaseException):
    """The case used more CPU time than any terminating run could need."""


class OutOfTime(KeyboardInterrupt):
    """The group's share of the time is used up (not an Exception, so that hypothesis stops at once)."""


class StopSearch(BaseException):
    """Shrinking ran out of its budget."""


def fail(msg):
    raise Violation(msg)


def require(cond, msg, *args):
    if not cond:
        raise Violation(msg % args if args else msg)


def excluded(tag):
    raise Excluded(tag)


class Group:
    """A family of cases: a Hypothesis strategy giving JSON-able dicts and a plain check deciding one of them.

    check(case) returns a list of labels; an empty list (or None) means the case was trivial."""

    def __init__(self, name, strategy, check, quick=400, thorough=None, weight=1.0, cpu=60.0):
        self.name = name
        self.strategy = strategy
        self.check = check
        self.quick = quick
        self.thorough = thorough if thorough is not None else quick * 25
        self.weight = weight
        self.cpu = cpu


def canon(case):
    return json.dumps(case, sort_keys=True)


def case_hash(group, case):
    return int.from_bytes(hashlib.blake2b((group + canon(case)).encode(), digest_size=8).digest(), "big")


def _on_timer(signum, frame):
    raise CaseTimeout()


def run_case(group, case):
    """Decides one case. Raises Violation (property broken), Excluded, or returns the labels."""
    case = json.loads(canon(case))          # the check sees exactly what a replay file would hold
    signal.signal(signal.SIGVTALRM, _on_timer)
    signal.setitimer(signal.ITIMER_VIRTUAL, group.cpu)
    try:
        labels = group.check(case)
    except (Violation, Excluded):
        raise
    except CaseTimeout:
        raise Violation("no result within %g s of CPU time" % group.cpu) from None
    except MemoryError:
        raise
    except Exception as e:
        import traceback
        tb = traceback.extract_tb(e.__traceback__)
        where = " <- ".join("%s:%d %s" % (f.filename.split("/funpy/")[-1].split("/fv/")[-1], f.lineno, f.name)
                            for f in reversed(tb[-4:]))
        raise Violation("unexpected %s: %s [%s]" % (type(e).__name__, str(e)[:300], where)) from e
    finally:
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)
    return labels or []
