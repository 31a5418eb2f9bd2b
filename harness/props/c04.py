"""C04: an operation that fails or is refused leaves what was stored intact."""
import errno
import json
import os
import resource
import shutil
import sys

import ocfl
from hypothesis import strategies as st

import gen
import objects
import ref
from core import HarnessError, Part, check, diff_trees, read_tree, write_tree

WRITING = ("os.mkdir", "os.remove", "os.rmdir", "os.rename")


class Faults:
    """Counts file operations below a directory, and makes one of them fail.

    Audit hooks cannot be removed, so one is installed and switched on and off.
    """

    def __init__(self):
        self.on = False
        self.installed = False

    def install(self):
        if not self.installed:
            sys.addaudithook(self.hook)
            self.installed = True

    def start(self, below, at=None, mode=None):
        self.install()
        self.below = below
        self.at = at
        self.mode = mode
        self.log = []
        self.hit = False
        self.on = True

    def stop(self):
        self.on = False

    def hook(self, event, args):
        if not self.on or not (event == "open" or event.startswith("os.")):
            return
        path = args[0] if args else None
        if not isinstance(path, str) or not path.startswith(self.below):
            return
        if event == "open":
            writing = (isinstance(args[1], str) and any(c in args[1] for c in "wax+")) or bool(args[2] & (os.O_WRONLY | os.O_RDWR | os.O_CREAT))
        elif event in WRITING:
            writing = True
        elif event in ("os.listdir", "os.scandir"):
            writing = False
        else:
            return
        self.log.append(writing)
        if self.at is not None and len(self.log) - 1 >= self.at and (self.mode == "stuck" or len(self.log) - 1 == self.at):
            self.hit = True
            if self.mode == "crash":
                os._exit(77)
            raise OSError(errno.EIO, "injected fault", path)


FAULTS = Faults()
OPS = ["create", "build", "update", "update", "metadata", "digest", "newversion"]


@st.composite
def cases(draw):
    hist = draw(gen.histories(min_versions=2, max_versions=3, max_paths=4))
    cfg = draw(gen.configs(lax=False))
    return {
        "op": draw(st.sampled_from(OPS)),
        "id": draw(gen.object_ids()),
        "cfg": cfg,
        "hist": hist,
        "metas": [draw(gen.metadata(full=True)) for _ in hist],
        "faults": draw(st.lists(st.tuples(st.sampled_from(["crash", "crash", "once", "stuck", "full"]), st.booleans(),
                                          st.integers(0, 10 ** 6)).map(list), min_size=3, max_size=6)),
    }


def operate(case, d):
    """The operation under test, on the object in d (source directories are in d/src)."""
    cfg, hist = case["cfg"], case["hist"]
    n = len(hist)
    src = os.path.join(d, "src")
    objdir = os.path.join(d, "obj")
    op = case["op"]
    if op == "create":
        return ocfl.Object(**objects.object_kwargs(case["id"], cfg)).create(
            srcdir=os.path.join(src, "v1"), metadata=objects.meta_obj(case["metas"][0]), objdir=objdir)
    if op == "build":
        return ocfl.Object(**objects.object_kwargs(case["id"], cfg)).build(
            srcdir=src, versions_metadata={i + 1: objects.meta_obj(m) for i, m in enumerate(case["metas"])}, objdir=objdir)
    c = dict(cfg)
    if op == "digest":
        c["digest_algorithm"] = "sha256" if cfg["digest_algorithm"] == "sha512" else "sha512"
    obj = ocfl.Object(**objects.object_kwargs(None, c))
    md = objects.meta_obj(case["metas"][-1])
    last = os.path.join(src, "v%d" % n)
    if op == "newversion":
        nv = obj.start_new_version(objdir=objdir, srcdir=last, digest_algorithm=c["digest_algorithm"], metadata=md)
        for lp in list(nv.inventory.current_version.logical_paths):
            if len(lp) % 2:
                nv.delete(lp)
        for p, _c in hist[-1]:
            if gen.compatible(p, nv.inventory.current_version.logical_paths):
                nv.add(p, p)
        return obj.write_new_version(nv)
    return obj.add_version_with_content(objdir=objdir, srcdir=None if op == "metadata" else last, metadata=md)


def prepare(case, d):
    """Sources, and the object that the operation updates."""
    objects.write_sources(os.path.join(d, "src"), case["hist"])
    if case["op"] not in ("create", "build"):
        before = dict(case, hist=case["hist"][:-1], metas=case["metas"][:-1])
        objects.create_and_update(d, case["id"], case["cfg"], before["hist"], before["metas"])


def run_faulty(case, d, mode, at):
    """Run with one fault: 'returned', 'raised' or 'crashed'; and whether the fault was hit."""
    if mode == "crash":
        pid = os.fork()
        if pid == 0:
            status = 3
            try:
                FAULTS.start(d, at, mode)
                operate(case, d)
                status = 0
            except BaseException:  # pylint: disable=broad-except
                pass
            os._exit(status)
        _, st_ = os.waitpid(pid, 0)
        code = os.waitstatus_to_exitcode(st_)
        if code not in (0, 3, 77):
            raise HarnessError("child ended with %s" % code)
        return {0: "returned", 3: "raised", 77: "crashed"}[code], code == 77
    if mode == "full":
        soft, hard = resource.getrlimit(resource.RLIMIT_FSIZE)
        resource.setrlimit(resource.RLIMIT_FSIZE, (at, hard))
        try:
            operate(case, d)
            return "returned", False
        except Exception:  # pylint: disable=broad-except
            return "raised", True
        finally:
            resource.setrlimit(resource.RLIMIT_FSIZE, (soft, hard))
    FAULTS.start(d, at, mode)
    try:
        operate(case, d)
        return "returned", FAULTS.hit
    except Exception:  # pylint: disable=broad-except
        return "raised", FAULTS.hit
    finally:
        FAULTS.stop()


def is_root_inventory(p):
    return p == "inventory.json" or (p.startswith("inventory.json.") and "/" not in p)


def judge(before, after, expect, newv, outcome, what):
    """The state after a fault, for an update of the object before to expect."""
    roots = {p for p in set(before) | set(after) | set(expect) if is_root_inventory(p)}
    complete = all(after.get(p) == x for p, x in expect.items() if p.startswith(newv + "/"))
    for p, x in before.items():
        if p in roots:
            if after.get(p) != x:
                check(complete, "%s: %s changed before version %s was complete", what, p, newv)
            if p != "inventory.json" and p not in after:
                check(all(after.get(q) == expect[q] for q in expect if q in roots), "%s: %s removed before the root inventory and its sidecar were complete", what, p)
        else:
            check(p in after, "%s: %s lost", what, p)
            check(after[p] == x, "%s: %s changed", what, p)
    extra = [p for p in after if p not in before and p not in expect and not (p == newv or p.startswith(newv + "/"))]
    check(not extra, "%s: stray %s", what, extra)
    if outcome == "returned":
        diff = diff_trees(expect, after)
        check(not diff, "%s: reported as done, but %s", what, diff)


def faults(case, ctx):
    top = ctx.dir()
    # What there is, and what there should be
    d0 = os.path.join(top, "base")
    os.mkdir(d0)
    prepare(case, d0)
    objdir0 = os.path.join(d0, "obj")
    before = read_tree(objdir0, dirs=True) if os.path.isdir(objdir0) else {}
    srcs = read_tree(os.path.join(d0, "src"), dirs=True)
    d1 = os.path.join(top, "good")
    shutil.copytree(d0, d1)
    FAULTS.start(d1)
    try:
        operate(case, d1)
    finally:
        FAULTS.stop()
    ops = list(FAULTS.log)
    expect = read_tree(os.path.join(d1, "obj"), dirs=True)
    new = case["op"] in ("create", "build")
    newv = "v1" if new else "v%d" % len(case["hist"])
    problems, _ = ref.check_object(expect)
    check(not problems, "object not valid without faults: %s", problems[:3])
    writes = [i for i, w in enumerate(ops) if w]
    reads = [i for i, w in enumerate(ops) if not w]
    sizes = sorted({len(x) for p, x in expect.items() if x and before.get(p) != x})
    for j, (mode, onread, r) in enumerate(case["faults"]):
        d = os.path.join(top, "f%d" % j)
        shutil.copytree(d0, d)
        if mode == "full":
            size = sizes[r % len(sizes)]
            at = [size - 1, size // 2, 0, size // 3][(r // 7) % 4]
        else:
            pool = reads if onread and reads else writes
            at = pool[r % len(pool)]
        outcome, hit = run_faulty(case, d, mode, at)
        objdir = os.path.join(d, "obj")
        after = read_tree(objdir, dirs=True) if os.path.isdir(objdir) else {}
        what = "%s with fault %s at %d of %d" % (case["op"], mode, at, len(ops))
        check(read_tree(os.path.join(d, "src"), dirs=True) == srcs, "%s: source changed", what)
        if hit and mode != "once" and outcome == "returned":
            check(after == expect, "%s: reported as done, but %s", what, diff_trees(expect, after))
        if new:
            stray = [p for p in after if p not in expect and not any(q.startswith(p + "/") for q in expect)]
            check(not stray, "%s: stray %s", what, stray)
            if outcome == "returned":
                check(after == expect, "%s: reported as done, but %s", what, diff_trees(expect, after))
        else:
            judge(before, after, expect, newv, outcome, what)
        # A half-done object is never taken for a good one
        if after and after != before and after != expect and os.path.isdir(objdir):
            passed, v = ocfl.Object().validate(objdir=objdir)
            if passed:
                check(ref_content(after) in (ref_content(before), ref_content(expect)),
                      "%s: incomplete object passes validation", what)
                ctx.event("incomplete object valid")
            ctx.event("partial state")
        # Trying again on what is left never damages it either
        if not new and outcome != "returned" and r % 3 == 0:
            left = after
            try:
                operate(case, d)
                again = read_tree(objdir, dirs=True)
                check(again == expect or ref_content(again) is not None, "%s: second attempt gives a bad object", what)
            except Exception:  # pylint: disable=broad-except
                again = read_tree(objdir, dirs=True)
                check(again == left, "%s: refused second attempt changed the object: %s", what, diff_trees(left, again))
            ctx.event("second attempt")
        ctx.event("%s %s" % (mode, outcome))
        ctx.nontrivial(hit)
    ctx.event(case["op"])


def ref_content(tree):
    """Content of all versions as told by the root inventory, or None if there is no object."""
    if not tree or "inventory.json" not in tree:
        return None
    try:
        inv = json.loads(tree["inventory.json"])
        return {v: ref.version_content(tree, inv, v) for v in inv["versions"]}
    except (ValueError, KeyError):
        return None


# ---------------------------------------------------------------- refusals

REFUSALS = ["no srcdir", "norm", "digest", "md5", "invalid object", "invalid inventory", "no object", "empty dir", "no difference",
            "stale", "conflict", "exists", "exists file", "exists build", "gap", "no versions", "content dir", "spec version",
            "bad id", "parent missing", "two dirs"]


@st.composite
def refusal_cases(draw):
    hist = draw(gen.histories(min_versions=1, max_versions=2, max_paths=4, big=False))
    return {
        "what": draw(st.sampled_from(REFUSALS)),
        "id": draw(gen.object_ids()),
        "cfg": draw(gen.configs(lax=False)),
        "hist": hist,
        "metas": [draw(gen.metadata()) for _ in hist],
        "r": draw(st.integers(0, 10 ** 6)),
    }


def refusals(case, ctx):
    d = ctx.dir()
    what, r = case["what"], case["r"]
    objects.create_and_update(d, case["id"], case["cfg"], case["hist"], case["metas"])
    objdir = os.path.join(d, "obj")
    n = len(case["hist"])
    write_tree(os.path.join(d, "more"), {"a": b"1", "b/c": b"two", "zz": ("%d" % r).encode()})
    cfg = dict(case["cfg"])
    kw = {"objdir": objdir, "srcdir": os.path.join(d, "more")}
    new = os.path.join(d, "new")

    def fresh(ident=None, **changes):
        return ocfl.Object(**objects.object_kwargs(ident, dict(cfg, **changes)))

    def update(obj=None, **changes):
        return (obj or fresh()).add_version_with_content(**dict(kw, **changes))
    action = None
    refused_types = (ocfl.ObjectException, ocfl.NewVersionException, OSError, ValueError)
    if what == "no srcdir":
        action = lambda: update(srcdir=os.path.join(d, "not-there"))  # noqa: E731
    elif what == "norm":
        action = lambda: update(fresh(content_path_normalization="bogus"))  # noqa: E731
    elif what == "digest":
        action = lambda: update(fresh(digest_algorithm=["bogus", "SHA512", "sha3", ""][r % 4]), srcdir=[None, kw["srcdir"]][r // 7 % 2])  # noqa: E731
    elif what == "md5":
        action = lambda: update(fresh(digest_algorithm=gen.LAX_DIGESTS[r % 6]), srcdir=[None, kw["srcdir"]][r // 7 % 2])  # noqa: E731
    elif what == "invalid object":
        tree = read_tree(objdir)
        how = r % 6
        victim = sorted(p for p in tree if p != "inventory.json")[r // 6 % (len(tree) - 1)]
        if how == 0:
            os.remove(os.path.join(objdir, victim))
            if victim.endswith("inventory.json") and victim.count("/") == 1:
                how = -1  # a version inventory alone may be absent, but its sidecar is still there
        elif how == 1:
            os.mkdir(os.path.join(objdir, "v%d" % (n + 1)))
        elif how == 2:
            write_tree(objdir, {"stray.txt": b"x"})
        elif how == 3:
            write_tree(objdir, {"v1/%s/stray.txt" % cfg["content_directory"]: b"x"})
        elif how == 4:
            write_tree(objdir, {"v%d/content/half" % (n + 1): b"x"})
        else:
            write_tree(objdir, {"0=ocfl_object_9.9": b"ocfl_object_9.9\n"})
        passed, _v = ocfl.Object().validate(objdir=objdir)
        if passed:
            ctx.event("damage did not matter")
            return
        action = lambda: update(srcdir=[None, kw["srcdir"]][r // 7 % 2])  # noqa: E731
    elif what == "invalid inventory":
        with open(os.path.join(objdir, "inventory.json"), "ab") as fh:
            fh.write([b"x", b"{}", b"\0"][r % 3])
        action = lambda: update(srcdir=[None, kw["srcdir"]][r // 7 % 2])  # noqa: E731
    elif what == "no object":
        action = lambda: update(objdir=os.path.join(d, "nothing"))  # noqa: E731
    elif what == "empty dir":
        os.mkdir(new)
        action = lambda: update(objdir=new)  # noqa: E731
    elif what == "no difference":
        before = read_tree(d, dirs=True)
        src = os.path.join(d, "src-obj", "v%d" % n)
        res = update(srcdir=[src, src, None][r % 3], abort_if_no_difference=True)
        check(res is None, "a new version without any difference was not refused")
    elif what == "stale":
        # Two new versions started from the same state: the second to be written is refused
        obj1, obj2 = fresh(), fresh()
        nv1 = obj1.start_new_version(objdir=objdir, srcdir=kw["srcdir"])
        nv2 = obj2.start_new_version(objdir=objdir, srcdir=kw["srcdir"])
        if r % 2:
            nv1.add("a", "one-more-file-%d" % r)
        nv2.add("b/c", "other-new-file-%d" % r)
        obj1.write_new_version(nv1)
        action = lambda: obj2.write_new_version(nv2)  # noqa: E731
    elif what == "conflict":
        obj = fresh()
        nv = obj.start_new_version(objdir=objdir, srcdir=kw["srcdir"])
        nv.add("a", "qq/ww/ee")
        before = read_tree(d, dirs=True)
        for lp in ("qq/ww/ee", "qq/ww", "qq", "qq/ww/ee/rr", "", ".", "..", "../x", "/x", "x/", "x//y", "x/./y", "x/../y"):
            try:
                nv.add("zz", lp)
            except ocfl.NewVersionException:
                continue
            check(False, "logical path %r added to a version with qq/ww/ee", lp)
        for cp in ("v%d/%s/a" % (n, cfg["content_directory"]) if n > 0 else "", "x", "../x", "v%d/%s/../../x" % (n + 1, cfg["content_directory"]),
                   "v%d/x" % (n + 1), "v%d/%s/" % (n + 1, cfg["content_directory"]), "v%d/%s/./y" % (n + 1, cfg["content_directory"]),
                   "v%d/%s//y" % (n + 1, cfg["content_directory"])):
            try:
                nv.add("zz", "ok", content_path=cp)
            except ocfl.NewVersionException:
                continue
            check(False, "content path %r accepted in version %d", cp, n + 1)
        check(read_tree(d, dirs=True) == before, "a new version that is not written changed something")
        ctx.event(what)
        ctx.nontrivial()
        return
    elif what in ("exists", "exists build"):
        dst = [objdir, new, os.path.join(d, "more")][r % 3]
        if dst == new:
            os.makedirs(os.path.join(new, "sub"))
        if what == "exists":
            action = lambda: fresh(case["id"]).create(srcdir=kw["srcdir"], objdir=dst)  # noqa: E731
        else:
            action = lambda: fresh(case["id"]).build(srcdir=os.path.join(d, "src-obj"), objdir=dst)  # noqa: E731
    elif what == "exists file":
        write_tree(d, {"file": b"precious"})
        if r % 2:
            action = lambda: fresh(case["id"]).create(srcdir=kw["srcdir"], objdir=os.path.join(d, "file"))  # noqa: E731
        else:
            action = lambda: fresh(case["id"]).build(srcdir=os.path.join(d, "src-obj"), objdir=os.path.join(d, "file"))  # noqa: E731
    elif what in ("gap", "no versions", "two dirs"):
        vs = {"gap": [["v1", "v3"], ["v2"], ["v2", "v3"], ["v1", "v2", "v4"]][r % 4],
              "no versions": [["x"], ["v0"], ["1"], ["version1"]][r % 4],
              "two dirs": [["v1", "v01"], ["v1", "v2", "v0002"]][r % 2]}[what]
        write_tree(os.path.join(d, "vsrc"), {"%s/f" % v: b"x" for v in vs})
        action = lambda: fresh(case["id"]).build(srcdir=os.path.join(d, "vsrc"), objdir=[new, None][r // 4 % 2])  # noqa: E731
    elif what == "content dir":
        bad = ["..", ".", "", "a/b", "/a", "../../x", "inventory.json", "inventory.json.sha512", "inventory.json.sha256"][r % 9]
        if r // 9 % 2:
            action = lambda: fresh(case["id"], content_directory=bad).create(srcdir=kw["srcdir"], objdir=new)  # noqa: E731
        else:
            action = lambda: fresh(case["id"], content_directory=bad).build(srcdir=os.path.join(d, "src-obj"), objdir=new)  # noqa: E731
    elif what == "spec version":
        bad = ["0.9", "1.2", "2.0", "", "1", "1.1 "][r % 6]
        if r // 7 % 2:
            action = lambda: fresh(case["id"], spec_version=bad).create(srcdir=kw["srcdir"], objdir=new)  # noqa: E731
        else:
            action = lambda: fresh(case["id"], spec_version=bad).build(srcdir=os.path.join(d, "src-obj"), objdir=new)  # noqa: E731
    elif what == "bad id":
        if r % 2:
            action = lambda: fresh([None, ""][r // 2 % 2]).create(srcdir=kw["srcdir"], objdir=new)  # noqa: E731
        else:
            action = lambda: fresh([None, ""][r // 2 % 2]).build(srcdir=os.path.join(d, "src-obj"), objdir=new)  # noqa: E731
    elif what == "parent missing":
        dst = os.path.join(d, "no", "such", "parent")
        if r % 2:
            action = lambda: fresh(case["id"]).create(srcdir=kw["srcdir"], objdir=dst)  # noqa: E731
        else:
            action = lambda: fresh(case["id"]).build(srcdir=os.path.join(d, "src-obj"), objdir=dst)  # noqa: E731
    if action is not None:
        before = read_tree(d, dirs=True)
        try:
            action()
        except refused_types:
            pass
        else:
            check(False, "%s: not refused", what)
    after = read_tree(d, dirs=True)
    check(after == before, "%s: refused, but %s", what, diff_trees(before, after, "before", "after"))
    ctx.event(what)
    ctx.nontrivial()


PARTS = [
    Part("faults", cases, faults, 1600),
    Part("refusals", refusal_cases, refusals, 3000),
]
