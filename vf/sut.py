"""Boundary to the code under test.

Every call into torch_struct goes through ``sut``: an exception raised by the
library on an input inside its documented domain is a violation.  So is a result
that a check cannot take apart (``unusable``): the same code takes the results of the
unchanged library apart in every run.  Any other exception is an error of the harness.
"""
import importlib
import sys
import traceback

REPO = "/repo"
_mod = None
answers = 0  # calls into the library that returned, counted per case


class Violation(Exception):
    pass


def load():
    """Import torch_struct from /repo's working tree, ignoring cached bytecode."""
    global _mod
    if _mod is None:
        import torch  # noqa: F401  (bytecode of third parties may be cached)

        sys.path.insert(0, REPO)
        sys.pycache_prefix = "/nonexistent-pycache"
        sys.dont_write_bytecode = True
        _mod = importlib.import_module("torch_struct")
        sys.pycache_prefix = None
        assert _mod.__file__.startswith(REPO + "/"), _mod.__file__
    return _mod


def ts():
    return load()


def sut(fn, *a, **k):
    global answers
    try:
        r = fn(*a, **k)
        answers += 1
        return r
    except Violation:
        raise
    except Exception as e:  # noqa: BLE001
        tb = traceback.extract_tb(e.__traceback__)
        where = [f for f in tb if f.filename.startswith(REPO)]
        loc = "%s:%s" % (where[-1].filename, where[-1].lineno) if where else "?"
        raise Violation(
            "library raised %s: %s (at %s)" % (type(e).__name__, str(e)[:300], loc)
        ) from e


def unusable(e):
    "Violation for an exception met while a check takes a result of the library apart, else None."
    if not answers or not isinstance(e, (AttributeError, TypeError, ValueError, IndexError, RuntimeError)):
        return None
    if "alloc" in str(e) or "memory" in str(e):
        return None
    return Violation("a result of the library cannot be used: %s: %s" % (type(e).__name__, str(e)[:200]))


def expect(cond, msg, *args):
    if not cond:
        raise Violation(msg % args if args else msg)
