"""Shared machinery: case runner, worker pool, evidence, replay files.

A check module (harness/props/<id>.py) defines

    PARTS = [Part(name, strategy, check, quick, thorough, rule), ...]

where strategy generates plain JSON data (a *case*) and check(case, ctx) runs
the code under test on that case, raising Violation if the property is broken.
Because a case is plain data, a failing one is written out as the replay file
and can be run again without Hypothesis (see run.py --replay).
"""
import contextlib
import hashlib
import io
import json
import logging
import os
import shutil
import signal
import sys
import traceback

REPO = os.environ.get("VERIF_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
VTLIB = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
OCFL_PREFIX = os.path.join(os.path.realpath(REPO), "ocfl") + os.sep


class Violation(Exception):
    """The property does not hold for the current case."""


class HarnessError(Exception):
    """The harness itself could not decide the case."""


class Part:
    """One generated check: a strategy for cases and a function that judges one."""

    def __init__(self, name, strategy, check, quick, thorough=None, rule="", fixed=None):
        self.name = name
        self.strategy = strategy      # zero-argument callable giving a Hypothesis strategy
        self.check = check
        self.quick = quick            # total number of cases over all workers
        self.thorough = thorough if thorough is not None else quick * 8
        self.rule = rule
        self.fixed = fixed            # optional zero-argument callable giving a list of fixed cases


class Ctx:
    """Per-part context given to a check function."""

    def __init__(self, workdir):
        self.workdir = workdir
        self.n = 0
        self.classes = {}
        self.nontrivial_now = False
        self.nontrivial_hashes = set()
        self.evaluations = 0
        self.samples = []
        self.known = {}
        self._dir = None

    # -- case life cycle
    def begin(self):
        self.n += 1
        self.nontrivial_now = False
        self._dir = None

    def dir(self):
        """Fresh deep scratch directory of the current case.

        Nested so that a stray '..' or two stays within our scratch area.
        """
        if self._dir is None:
            top = os.path.join(self.workdir, "c%d" % self.n)
            self._dir = os.path.join(top, "p", "q", "r", "s")
            os.makedirs(self._dir)
            self._top = top
        return self._dir

    def end(self):
        if self._dir is not None:
            rmtree(self._top)
            self._dir = None

    # -- observations
    def event(self, name, n=1):
        self.classes[name] = self.classes.get(name, 0) + n

    def nontrivial(self, cond=True):
        if cond:
            self.nontrivial_now = True

    def known_finding(self, key):
        """Note that a listed known finding was observed in this case."""
        self.known[key] = self.known.get(key, 0) + 1


def rmtree(path):
    """Remove one of our own scratch trees, also when it holds unreadable directories."""
    path = os.path.abspath(path)
    if "/verif-scratch-" not in path:
        raise HarnessError("refusing to remove %s" % path)

    def onexc(func, p, exc):
        try:
            os.chmod(os.path.dirname(p), 0o700)
            os.chmod(p, 0o700)
            func(p)
        except OSError:
            pass
    shutil.rmtree(path, onexc=onexc)


def case_hash(case):
    return hashlib.blake2b(json.dumps(case, sort_keys=True, default=str).encode("utf-8", "surrogatepass"), digest_size=8).hexdigest()


def abridge(case, limit=1500):
    s = json.dumps(case, sort_keys=True, default=str)
    if len(s) <= limit:
        return case
    return s[:limit] + "...(%d chars)" % len(s)


def from_ocfl(tb):
    """True if the traceback passes through the code under test."""
    while tb is not None:
        fn = os.path.realpath(tb.tb_frame.f_code.co_filename)
        if fn.startswith(OCFL_PREFIX) or (os.path.dirname(fn) == os.path.realpath(REPO)):
            return True
        tb = tb.tb_next
    return False


CASE_SECONDS = 150  # cases take milliseconds; one that takes this long does not end


class CaseTimeout(Exception):
    """The case did not end."""


def _on_alarm(signum, frame):
    raise CaseTimeout("case not finished after %d s" % CASE_SECONDS)


def run_case(part, case, ctx):
    """Run one case. Raises Violation or HarnessError (or returns)."""
    ctx.begin()
    ctx.evaluations += 1
    cwd = os.getcwd()
    signal.signal(signal.SIGALRM, _on_alarm)
    signal.alarm(CASE_SECONDS)
    try:
        part.check(case, ctx)
    except Violation:
        raise
    except HarnessError:
        raise
    except (KeyboardInterrupt, SystemExit, MemoryError):
        raise
    except Exception as e:  # pylint: disable=broad-except
        if type(e).__module__.startswith("hypothesis"):
            raise
        if isinstance(e, OSError) and e.errno in (28, 24, 12):  # no space, too many files, no memory
            raise HarnessError("resource problem: %s" % e)
        if from_ocfl(e.__traceback__):
            raise Violation("unexpected %s: %s\n%s" % (type(e).__name__, e, short_tb(e))) from e
        # The check could not make sense of what it was given (it can with the code as it should be)
        raise Violation("result of unexpected form (%s: %s)\n%s" % (type(e).__name__, e, short_tb(e))) from e
    finally:
        signal.alarm(0)
        if os.getcwd() != cwd:
            os.chdir(cwd)
        ctx.end()
    if ctx.nontrivial_now:
        h = case_hash(case)
        if h not in ctx.nontrivial_hashes:
            ctx.nontrivial_hashes.add(h)
            if len(ctx.samples) < 3 or (len(ctx.samples) < 6 and ctx.n % 97 == 0):
                ctx.samples.append(abridge(case))


def short_tb(e):
    frames = traceback.extract_tb(e.__traceback__)
    return "\n".join("  %s:%s in %s" % (os.path.basename(f.filename), f.lineno, f.name) for f in frames[-6:])


def check(cond, msg, *args):
    """Assert part of a property."""
    if not cond:
        raise Violation(msg % args if args else msg)


class Raised:
    """Result of attempt() when an exception was raised."""

    def __init__(self, exc):
        self.exc = exc

    def __bool__(self):
        return False

    def __repr__(self):
        return "Raised(%s: %s)" % (type(self.exc).__name__, self.exc)


def attempt(fn, *args, expected=(Exception,), **kw):
    """Call fn; a raised exception of an expected type is returned as Raised."""
    try:
        return fn(*args, **kw)
    except expected as e:
        return Raised(e)


def quiet():
    """Silence logging (the code under test logs through the root logger)."""
    logging.disable(logging.CRITICAL)


@contextlib.contextmanager
def captured():
    """Capture stdout and stderr."""
    out, err = io.StringIO(), io.StringIO()
    with contextlib.redirect_stdout(out), contextlib.redirect_stderr(err):
        yield out, err


# ---------------------------------------------------------------- files

def write_tree(root, tree):
    """Write {relpath: bytes} below root (created)."""
    os.makedirs(root, exist_ok=True)
    for path, data in tree.items():
        full = os.path.join(root, path)
        os.makedirs(os.path.dirname(full), exist_ok=True)
        with open(full, "wb") as fh:
            fh.write(data)


def read_tree(root, dirs=False):
    """Read {relpath: bytes} below root; with dirs=True empty directories map to None.

    Symbolic links and special files map to a marker string.
    """
    tree = {}
    root = os.fspath(root)
    for dirpath, dirnames, filenames in os.walk(root):
        rel = os.path.relpath(dirpath, root)
        for d in list(dirnames):
            if os.path.islink(os.path.join(dirpath, d)):
                filenames.append(d)
                dirnames.remove(d)
        for f in filenames:
            full = os.path.join(dirpath, f)
            p = f if rel == "." else os.path.join(rel, f)
            if os.path.islink(full):
                tree[p] = "symlink:" + os.readlink(full)
            elif os.path.isfile(full):
                with open(full, "rb") as fh:
                    tree[p] = fh.read()
            else:
                tree[p] = "special"
        if dirs and not dirnames and not filenames and rel != ".":
            tree[rel] = None
    return tree


def diff_trees(a, b, aname="expected", bname="actual"):
    """Short description of the differences between two trees, '' if equal."""
    if a == b:
        return ""
    msgs = []
    only_a = sorted(set(a) - set(b))
    only_b = sorted(set(b) - set(a))
    differ = sorted(p for p in set(a) & set(b) if a[p] != b[p])
    if only_a:
        msgs.append("only in %s: %r" % (aname, only_a[:6]))
    if only_b:
        msgs.append("only in %s: %r" % (bname, only_b[:6]))
    if differ:
        msgs.append("differ: %r" % (differ[:6]))
    return "; ".join(msgs)
