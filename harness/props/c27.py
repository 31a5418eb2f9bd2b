"""C27: the command line tools do what the library does, and say how it went."""
import contextlib
import io
import json
import os
import runpy
import sys

import ocfl
from hypothesis import strategies as st
from ocfl.validator import Validator

import gen
import layouts
import objgen
import objects
import ref
from core import REPO, Part, Raised, attempt, check, diff_trees, read_tree, write_tree


class Run:
    """Result of running a command line tool."""

    def __init__(self, script, *argv, env=None):
        out, err = io.StringIO(), io.StringIO()
        saved = sys.argv, os.environ.get("OCFL_ROOT")
        sys.argv = [script] + list(argv)
        os.environ.pop("OCFL_ROOT", None)
        if env:
            os.environ.update(env)
        self.exc = None
        try:
            with contextlib.redirect_stdout(out), contextlib.redirect_stderr(err):
                runpy.run_path(os.path.join(REPO, script), run_name="__main__")
            self.code = 0
        except SystemExit as e:
            self.code = 0 if e.code is None else e.code if isinstance(e.code, int) else 1
        except Exception as e:  # pylint: disable=broad-except
            self.code, self.exc = 1, e
        finally:
            sys.argv = saved[0]
            os.environ.pop("OCFL_ROOT", None)
            if saved[1] is not None:
                os.environ["OCFL_ROOT"] = saved[1]
        self.argv = argv
        self.out = out.getvalue()
        self.err = err.getvalue()

    def __str__(self):
        return "%s -> status %s%s, output %r" % (" ".join(map(repr, self.argv))[:400], self.code, " (%s: %s)" % (type(self.exc).__name__, self.exc) if self.exc else "", self.out[-300:])


def safe(text):
    return "\0" not in text


# ---------------------------------------------------------------- ocfl-object

@st.composite
def object_cases(draw):
    cfg = draw(gen.configs(contentdir=False, fixity=False))
    return {"hist": draw(gen.histories(max_versions=3, long_from=3)), "metas": [draw(gen.metadata(full=True)) for _ in range(6)], "id": draw(st.sampled_from(gen.IDS)),
            "cfg": cfg, "how": draw(st.sampled_from(["update", "update", "build"])), "ver": draw(st.integers(0, 3)), "file": draw(st.integers(0, 9)),
            "short": draw(st.booleans()), "eq": draw(st.booleans()),
            "bad": draw(st.sampled_from(["nosrc", "absent", "exists", "noobj", "version", "path", "taken", "noid", "spec", "digest", "badoption", "nocmd", "srcfile", "updabsent", "updnosrc", "bldnosrc", "filebag"]))}


def options(case, ident=True):
    cfg = case["cfg"]
    argv = ["--digest=" + cfg["digest_algorithm"], "--spec=" + cfg["spec_version"]]
    if cfg["content_path_normalization"]:
        argv += ["--normalization", cfg["content_path_normalization"]]
    if not cfg["forward_delta"]:
        argv.append("--no-forward-delta")
    if not cfg["dedupe"]:
        argv.append("--no-dedup" if case["short"] else "--no-dedupe")
    if cfg["lax_digests"]:
        argv.append("--lax-digests")
    if ident:
        argv.append("--id=" + case["id"])
    return argv


def meta_options(m):
    return ["--created=" + m[0], "--message=" + m[1], "--name=" + m[2], "--address=" + m[3]]


def same_object(a, b, what):
    msg = diff_trees(read_tree(a, dirs=True), read_tree(b, dirs=True), "library", "command")
    check(not msg, "%s: %s", what, msg)


def object_check(case, ctx):
    d = ctx.dir()
    hist, metas, cfg = case["hist"], case["metas"], {k: v for k, v in case["cfg"].items() if k != "content_directory"}
    src = objects.write_sources(os.path.join(d, "src"), hist)
    lib, obj = os.path.join(d, "lib"), os.path.join(d, "obj")
    objopt = "--obj" if case["short"] else "--objdir"
    srcopt = "--src" if case["short"] else "--srcdir"
    tool = "ocfl-object.py"

    def new(ident=True):
        return ocfl.Object(identifier=case["id"] if ident else None, **cfg)
    if case["how"] == "build":
        metadata = {"id": case["id"], "head": "v%d" % len(hist), "versions": {}}
        for i in range(len(hist)):
            m = metas[i % len(metas)]
            metadata["versions"]["v%d" % (i + 1)] = {"created": m[0], "message": m[1], "user": {"name": m[2], "address": m[3]}, "state": {}}
        with open(os.path.join(d, "meta.json"), "w", encoding="utf-8") as fh:
            json.dump(metadata, fh)
        inv = new().build(srcdir=src, versions_metadata={i + 1: objects.meta_obj(metas[i % len(metas)]) for i in range(len(hist))}, objdir=lib)
        args = ["build", srcopt, src, "--metadata", os.path.join(d, "meta.json")] + options(case)
        r = Run(tool, *args)
        check(r.code == 0 and json.loads(r.out[r.out.index("{"):]) == inv.data, "build without object directory: %s", r)
        check(not os.path.exists(obj), "build without object directory writes")
        r = Run(tool, *args, objopt, obj)
        check(r.code == 0, "build: %s", r)
        same_object(lib, obj, "build")
    else:
        new().create(srcdir=src + "/v1", metadata=objects.meta_obj(metas[0]), objdir=lib)
        args = ["create", srcopt, src + "/v1"] + options(case) + meta_options(metas[0])
        r = Run(tool, *args)
        with open(lib + "/inventory.json", encoding="utf-8") as fh:
            check(r.code == 0 and json.loads(r.out[r.out.index("{"):]) == json.load(fh), "create without object directory: %s", r)
        check(not os.path.exists(obj), "create without object directory writes")
        r = Run(tool, *args, objopt, obj)
        check(r.code == 0, "create: %s", r)
        same_object(lib, obj, "create")
        for i in range(1, len(hist)):
            new(False).add_version_with_content(objdir=lib, srcdir="%s/v%d" % (src, i + 1), metadata=objects.meta_obj(metas[i % len(metas)]))
            r = Run(tool, "update", srcopt, "%s/v%d" % (src, i + 1), objopt, obj, *(options(case, ident=False) + meta_options(metas[i % len(metas)])))
            check(r.code == 0, "update: %s", r)
            check(case["id"] in r.out and "v%d" % (i + 1) in r.out, "update does not say what was done: %s", r)
            same_object(lib, obj, "update")
    before = read_tree(obj, dirs=True)
    # Look at it
    lax = ["--lax-digests"] if cfg["lax_digests"] else []
    r = Run(tool, "validate", objopt, obj, *lax)
    check(r.code == 0 and r.out.rstrip().endswith("VALID") and "INVALID" not in r.out, "validate: %s", r)
    r = Run("ocfl-validate.py", obj, *lax)
    check(r.code == 0 and r.out.rstrip().endswith("VALID") and "INVALID" not in r.out, "ocfl-validate: %s", r)
    r = Run(tool, "show", objopt, obj, *lax)
    check(r.code == 0 and ocfl.Object(lax_digests=cfg["lax_digests"]).tree(objdir=obj) in r.out, "show: %s", r)
    for i in range(len(hist)):
        check("v%d" % (i + 1) in r.out, "show does not list version %d: %s", i + 1, r)
    check("???" not in r.out and "multiple" not in r.out, "show finds something odd in a good object: %s", r)
    # Extract
    k = case["ver"] % (len(hist) + 1)
    ver = "v%d" % (k + 1) if k < len(hist) else "head"
    want = gen.tree_bytes(hist[min(k, len(hist) - 1)])
    out = os.path.join(d, "out")
    r = Run(tool, "extract", objopt, obj, "--objver", ver, "--dstdir" if case["short"] else "--dst", out, *lax)
    check(r.code == 0, "extract: %s", r)
    msg = diff_trees(want, read_tree(out))
    check(not msg, "extract %s: %s", ver, msg)
    real = "v%d" % (min(k, len(hist) - 1) + 1)
    check(real in r.out, "extract does not name the version: %s", r)
    paths = sorted(want)
    if paths:
        p = paths[case["file"] % len(paths)]
        out1 = os.path.join(d, "out1")
        os.mkdir(out1)
        r = Run(tool, "extract", objopt, obj, "--objver=" + ver, "--dstdir", out1, "--logical-path=" + p, *lax)
        check(r.code == 0, "extract a file: %s", r)
        msg = diff_trees({os.path.basename(p): want[p]}, read_tree(out1))
        check(not msg, "extract file %r: %s", p, msg)
    # Refusals change nothing and are not reported as success
    bad = case["bad"]
    scratch = os.path.join(d, "bad")
    os.mkdir(scratch)
    newobj = os.path.join(scratch, "new")
    v1 = src + "/v1"
    args = {"nosrc": ["create", "--objdir", newobj, "--id=x"], "absent": ["create", "--srcdir", src + "/none", "--objdir", newobj, "--id=x"],
            "exists": ["create", "--srcdir", v1, "--objdir", obj, "--id=x"], "noobj": ["update", "--srcdir", v1, "--objdir", scratch],
            "version": ["extract", "--objdir", obj, "--objver", "v99", "--dstdir", newobj], "path": ["extract", "--objdir", obj, "--logical-path", "no/such/path/x", "--dstdir", scratch],
            "taken": ["extract", "--objdir", obj, "--dstdir", lib], "noid": ["create", "--srcdir", v1, "--objdir", newobj], "spec": ["create", "--srcdir", v1, "--objdir", newobj, "--id=x", "--spec=9.9"],
            "digest": ["create", "--srcdir", v1, "--objdir", newobj, "--id=x", "--digest=md4"], "badoption": ["create", "--wrong"], "nocmd": [],
            "srcfile": ["build", "--srcdir", obj + "/inventory.json", "--objdir", newobj, "--id=x"], "updabsent": ["update", "--srcdir", src + "/none", "--objdir", obj],
            "updnosrc": ["update", "--objdir", obj, "--message=x"], "bldnosrc": ["build", "--objdir", newobj, "--id=x"],
            "filebag": ["extract", "--objdir", obj, "--logical-path", (paths or ["x"])[0], "--dstdir", scratch, "--dstbag", newobj]}[bad]
    was = read_tree(d, dirs=True)
    r = Run(tool, *args)
    check(r.code != 0, "%s is reported as success: %s", bad, r)
    now = read_tree(d, dirs=True)
    now.pop("bad/new", None)
    now.setdefault("bad", None)
    was.setdefault("bad", None)
    msg = diff_trees(was, now)
    check(not msg, "%s changes something: %s", bad, msg)
    check(read_tree(obj, dirs=True) == before, "object changed")
    ctx.event(bad)
    ctx.nontrivial(len(hist) > 1 and any(hist))


# ---------------------------------------------------------------- ocfl-validate

@st.composite
def validate_cases(draw):
    items = []
    for _ in range(draw(st.integers(1, 3))):
        kind = draw(st.sampled_from(["object", "object", "inventory", "root", "dir", "absent", "zip"]))
        items.append({"kind": kind, "obj": draw(objgen.cases(max_versions=2)), "damage": draw(st.sampled_from([None, None, "flip", "lose", "sidecar", "extra", "json"])),
                      "which": draw(st.integers(0, 20))})
    return {"items": items, "quiet": draw(st.sampled_from([[], [], ["-q"], ["--quiet"], ["-Q"], ["--very-quiet"]])), "nodig": draw(st.booleans()),
            "rel": draw(st.booleans())}


def damage(tree, how, which):
    files = sorted(p for p in tree if tree[p] is not None)
    content = [p for p in files if p.count("/") >= 2 and not p.startswith(("logs/", "extensions/"))]
    if how == "flip" and content:
        p = content[which % len(content)]
        tree[p] = b"changed " + tree[p]
    elif how == "lose" and content:
        del tree[content[which % len(content)]]
    elif how == "sidecar":
        for p in files:
            if "/" not in p and p.startswith("inventory.json."):
                tree[p] = tree[p][1:]
    elif how == "extra":
        tree["surplus"] = b"x"
    elif how == "json":
        tree["inventory.json"] = tree["inventory.json"][:-3]


def codes_in(text):
    """Codes of messages in brackets, with their letters, in order."""
    out = []
    for line in text.splitlines():
        for part in line.split("[")[1:]:
            code = part.split("]")[0]
            if len(code) in (4, 5) and code[0] in "EW" and code[1:4].isdigit():
                out.append(code)
                break
    return out


def validate_check(case, ctx):
    d = ctx.dir()
    lines, good, wantcodes = [], [], []
    quiet, vq = bool(case["quiet"]), case["quiet"] in (["-Q"], ["--very-quiet"])
    paths = []
    kw = {"log_warnings": not quiet, "log_errors": not vq}
    for i, item in enumerate(case["items"]):
        tree = objgen.make(item["obj"])
        damage(tree, item["damage"], item["which"])
        path = os.path.join(d, "item%d" % i)
        kind = item["kind"]
        if kind in ("object", "inventory", "zip"):
            objgen.write(path, tree)
        if kind == "object":
            v = Validator(check_digests=not case["nodig"], **kw)
            ok = v.validate_object(path)
            wantcodes += codes_in(str(v))
            lines.append((path, ok, v.spec_version))
        elif kind == "inventory":
            path += "/inventory.json"
            ok, v = ocfl.Object().validate_inventory(path, **kw)
            wantcodes += codes_in(str(v))
            lines.append((path, ok, None))
        elif kind == "root":
            store = ocfl.StorageRoot(path, layout_name="nnnn-flat-quoted-storage-layout")
            store.initialize(spec_version="1.1")
            os.makedirs(path + "/o")
            objgen.write(path + "/o/a", tree)
            v = Validator(check_digests=not case["nodig"])
            ok = v.validate_object(path + "/o/a")
            # The storage root reports the same for its object
            s = ocfl.StorageRoot(path)
            check(s.validate(check_digests=not case["nodig"]) is ok, "storage root with one object: valid is %s", not ok)
            lines.append((path, ok, "1.1"))
        elif kind == "zip":
            import zipfile
            with zipfile.ZipFile(path + ".zip", "w") as z:
                for dirpath, dirs, files in os.walk(path):
                    for name in dirs + files:
                        full = os.path.join(dirpath, name)
                        z.write(full, os.path.relpath(full, path))
            bad = any(s != s.strip() or "\\" in s for p in tree for s in p.split("/"))
            path = "zip://" + path + ".zip"
            v = Validator(check_digests=not case["nodig"], **kw)
            ok = None if bad else v.validate_object(path)
            if bad:
                lines.append(None)
                continue
            wantcodes += codes_in(str(v))
            lines.append((path, ok, v.spec_version))
        elif kind == "dir":
            write_tree(path, {"x": b"y"})
            ok = False
            lines.append((path, None, None))
        else:
            ok = False
            lines.append((path, None, None))
        good.append(ok)
        paths.append(path)
    if case["rel"]:
        cwd = os.getcwd()
        os.chdir(d)
        paths = [os.path.relpath(p, d) if not p.startswith("zip:") else p for p in paths]
        names = iter(paths)
        lines = [x and (next(names),) + x[1:] for x in lines]
    before = read_tree(d, dirs=True)
    try:
        r = Run("ocfl-validate.py", *(case["quiet"] + (["--no-check-digests"] if case["nodig"] else []) + paths))
    finally:
        if case["rel"]:
            os.chdir(cwd)
    check(r.exc is None, "crash: %s", r)
    check((r.code == 0) == all(good), "status for %r: %s", good, r)
    # One line of result for each path
    text = r.out.splitlines()
    for path, ok, spec in [x for x in lines if x]:
        mine = [x for x in text if x.endswith(" at %s is VALID" % path) or x.endswith(" at %s is INVALID" % path)]
        if ok is None:
            check(not mine and any(path in x for x in text), "path that is nothing to validate: %s", r)
        else:
            check(len(mine) == 1, "no result for %s: %s", path, r)
            check(mine[0].endswith(" is VALID" if ok else " is INVALID"), "result for %s which is valid %s: %r", path, ok, mine[0])
            if spec:
                check("v%s " % spec in mine[0], "specification version %s not shown: %r", spec, mine[0])
    kinds = {i["kind"] for i in case["items"]}
    if "root" not in kinds:
        got = codes_in(r.out)
        check(got == wantcodes, "messages %r, expected %r: %s", got, wantcodes, r)
    if vq:
        check(not codes_in(r.out), "messages although very quiet: %s", r)
    elif quiet:
        check(not [c for c in codes_in(r.out) if c[0] == "W"], "warnings although quiet: %s", r)
    msg = diff_trees(before, read_tree(d, dirs=True))
    check(not msg, "validation changed files: %s", msg)
    # The status of the other tools is the same
    for line, item in zip(lines, case["items"]):
        path, ok, _ = line or (None, None, None)
        if item["kind"] == "object" and not case["rel"] and not case["nodig"]:
            r = Run("ocfl-object.py", "validate", "--objdir", path)
            check(r.exc is None and (r.code == 0) == ok, "ocfl-object validate, valid %s: %s", ok, r)
            check(("INVALID" in r.out.splitlines()[-1]) != ok, "ocfl-object validate, valid %s: %s", ok, r)
        elif item["kind"] == "root" and not case["rel"] and not case["nodig"]:
            r = Run("ocfl-root.py", "validate", "--root", path, "--validate-objects", "--check-digests", "--max_errors", "1")
            check(r.exc is None and (r.code == 0) == ok, "ocfl-root validate, valid %s: %s", ok, r)
            check(r.out.splitlines()[-1].endswith(" is VALID" if ok else " is INVALID"), "ocfl-root validate, valid %s: %s", ok, r)
            check("1 / 1 are %s" % ("VALID" if ok else "INVALID") in r.out, "count of objects, valid %s: %s", ok, r)
            s = ocfl.StorageRoot(path)
            s.validate(log_warnings=not quiet)
            r = Run("ocfl-root.py", "validate", "--root", path, "--validate-objects", "--check-digests", *(["-q"] if quiet else []))
            want = sorted(c for t in [str(s.log)] + [m for _, m in s.errors] for c in codes_in(t))
            check(r.exc is None and (r.code == 0) == ok and sorted(codes_in(r.out)) == want, "ocfl-root validate shows %s, expected %s: %s", codes_in(r.out), want, r)
    ctx.event("good" if all(good) else "bad")
    ctx.nontrivial(len(good) > 0 and any(i["damage"] for i in case["items"]))


# ---------------------------------------------------------------- ocfl-root

@st.composite
def root_cases(draw):
    name = draw(st.sampled_from([layouts.N0002, layouts.N0003, layouts.QUOTED, layouts.TUPLE]))
    params = draw(layouts.params_for(name))
    n = draw(st.integers(0, 3))
    ids = draw(st.lists(st.sampled_from(["info:x", "a", "b", "ark:/1/2", "é", "a b", "x" * 120, "A", "extensions"]), min_size=n, max_size=n))
    return {"name": name, "params": params, "ids": ids, "objs": [draw(objgen.cases(max_versions=2, plain=True)) for _ in range(n)],
            "spec": draw(st.sampled_from([None, "1.0", "1.1", "1.1", "7.7"])), "env": draw(st.booleans()), "probe": draw(st.sampled_from(["info:x", "a", "none such", ""]))}


def root_check(case, ctx):
    d = ctx.dir()
    lib, cli = os.path.join(d, "lib"), os.path.join(d, "cli")
    tool = "ocfl-root.py"

    def run(cmd, *argv, root=cli):
        if case["env"]:
            return Run(tool, cmd, *argv, env={"OCFL_ROOT": root})
        return Run(tool, cmd, "--root", root, *argv)

    def both(what, r, fn):
        """Same success and same result on disk."""
        res = attempt(fn, expected=(ocfl.StorageRootException, ocfl.ObjectException))
        check(r.exc is None, "%s: crash: %s", what, r)
        check((r.code == 0) == (not isinstance(res, Raised)), "%s: library %r, command %s", what, res, r)
        a, b = (read_tree(x, dirs=True) if os.path.exists(x) else None for x in (lib, cli))
        check(a == b, "%s: %s", what, diff_trees(a or {}, b or {}, "library", "command"))
        return res
    argv = ["--layout", case["name"]]
    params = json.dumps(case["params"]) if case["params"] is not None else None
    if params is not None:
        argv.append("--layout-params=" + params)
    if case["spec"]:
        argv.append("--spec-version=" + case["spec"])
    store = ocfl.StorageRoot(lib, layout_name=case["name"])
    r = run("create", *argv)
    res = both("create", r, lambda: store.initialize(spec_version=case["spec"] or ocfl.DEFAULT_SPEC_VERSION, layout_params=params))
    if isinstance(res, Raised):
        ctx.event("not created")
        return
    check(run("create", *argv).code != 0, "created twice")
    n = 0
    for i, (ident, o) in enumerate(zip(case["ids"], case["objs"])):
        o["id"] = ident
        src = os.path.join(d, "src%d" % i)
        objgen.write(src, objgen.make(o))
        r = run("add", "--src", src)
        res = both("add", r, lambda s=src: store.add(s))
        if not isinstance(res, Raised):
            n += 1
            check(ident in r.out and res[1] in r.out, "added object not named: %s", r)
    for args in (["--src", os.path.join(d, "none")], []):
        before = read_tree(cli, dirs=True)
        r = run("add", *args)
        check(r.code != 0 and r.exc is None, "add of nothing: %s", r)
        check(read_tree(cli, dirs=True) == before, "add of nothing changes the storage root")
    # Look
    want = sorted("%s -- id=%s" % x for x in ocfl.StorageRoot(lib).list_objects())
    r = run("list")
    check(r.code == 0, "list: %s", r)
    text = r.out.splitlines()
    check(sorted(text[:-1]) == want and len(want) == n, "list gives %r, expected %r", text, want)
    check(text[-1].startswith("Found %d OCFL Objects" % n), "count: %r", text[-1])
    for vo in ([], ["--validate-objects"]):
        r = run("validate", *vo)
        check(r.code == 0 and r.out.rstrip().endswith(" is VALID"), "validate: %s", r)
    probe = case["probe"]
    if probe:
        r = run("path", "-q", "--id=" + probe)
        res = attempt(ocfl.StorageRoot(lib).object_path, probe, expected=(ocfl.StorageRootException,))
        check((r.code == 0) == (not isinstance(res, Raised)), "path: library %r, command %s", res, r)
        if r.code == 0:
            check(r.out == os.path.join(cli, res) + "\n", "path of %r: %s, library says %s", probe, r, res)
            there = os.path.isdir(os.path.join(cli, res))
            r = run("show", "--id=" + probe)
            check((r.code == 0) == there, "show of object that is %s there: %s", "" if there else "not", r)
            r = run("validate-object", "--id=" + probe)
            check((r.code == 0) == there, "validation of object that is %s there: %s", "" if there else "not", r)
    else:
        for cmd in ("path", "show"):
            r = run(cmd)
            check(r.code != 0, "%s without identifier: %s", cmd, r)
    before = read_tree(cli, dirs=True)
    check(run("purge", "--id=" + (probe or "x")).code != 0, "purge is reported as success, but does not exist")
    check(read_tree(cli, dirs=True) == before, "purge, which does not exist, changes the storage root")
    for t in ("ocfl-root.py", "ocfl-object.py", "ocfl-validate.py", "ocfl-sidecar.py"):
        r = Run(t, "--version")
        check(r.code == 0 and r.out.split()[-1:] == [ocfl.__version__], "version: %s", r)
    check(run("list", root=cli + "x").code != 0, "list of absent root")
    check(Run(tool, "list").code != 0, "list without root")
    ctx.event("%d objects" % n)
    ctx.nontrivial(n > 0)


# ---------------------------------------------------------------- ocfl-sidecar

@st.composite
def sidecar_cases(draw):
    return {"objs": [draw(objgen.cases(max_versions=2)) for _ in range(draw(st.integers(1, 3)))],
            "how": [draw(st.sampled_from(["dir", "file", "slash", "bare", "default"])) for _ in range(3)], "cut": [draw(st.sampled_from(["keep", "delete", "spoil"])) for _ in range(3)],
            "digest": draw(st.sampled_from([None, None, None, "sha256", "sha512", "md5"]))}


def sidecar_check(case, ctx):
    d = ctx.dir()
    cwd = os.getcwd()
    opts = ["--digest", case["digest"]] if case["digest"] else []
    try:
        batch, dirs = [], []
        for i, o in enumerate(case["objs"]):
            path = os.path.join(d, "o%d" % i)
            tree = objgen.make(o)
            alg = case["digest"] or o["alg"]
            side = "inventory.json." + o["alg"]
            want = dict(tree)
            if case["cut"][i] == "delete":
                del tree[side]
                if alg != o["alg"]:
                    del want[side]
            elif case["cut"][i] == "spoil":
                tree[side] = b"0" + tree[side][1:]
                if alg != o["alg"]:
                    want[side] = tree[side]
            objgen.write(path, tree)
            want["inventory.json." + alg] = (ref.digest(alg, tree["inventory.json"]) + " inventory.json\n").encode()
            how = case["how"][i]
            if how in ("bare", "default"):
                os.chdir(path)
                r = Run("ocfl-sidecar.py", *(opts + (["inventory.json"] if how == "bare" else [])))
                check(r.code == 0 and "inventory.json." + alg in r.out, "sidecar: %s", r)
                os.chdir(cwd)
            else:
                batch.append({"dir": path, "file": path + "/inventory.json", "slash": path + "/"}[how])
            dirs.append((path, want, o))
        if batch:
            r = Run("ocfl-sidecar.py", *(opts + batch))
            check(r.code == 0, "sidecar: %s", r)
            check(r.out.count("Written sidecar file") == len(batch), "written sidecars not reported: %s", r)
        for path, want, o in dirs:
            now = read_tree(path, dirs=True)
            for p in want:  # one line with digest and name, separated by any white space
                if p.startswith("inventory.json.") and p in now and now[p] != want[p] and now[p].split() == want[p].split():
                    now[p] = want[p]
            msg = diff_trees(want, now)
            check(not msg, "sidecar: %s", msg)
            if not case["digest"]:
                v = Validator()
                check(v.validate_object(path), "object is not valid after writing its sidecar: %s", v.status_str()[:300])
        # Paths that are no inventories
        before = read_tree(d, dirs=True)
        os.mkdir(os.path.join(d, "empty"))
        r = Run("ocfl-sidecar.py", os.path.join(d, "empty"), os.path.join(d, "none"), os.path.join(d, "o0", "0=ocfl_object_" + case["objs"][0]["spec"]))
        check(r.exc is None and "Written" not in r.out, "sidecar of nothing: %s", r)
        os.rmdir(os.path.join(d, "empty"))
        msg = diff_trees(before, read_tree(d, dirs=True))
        check(not msg, "sidecar of nothing: %s", msg)
    finally:
        os.chdir(cwd)
    ctx.event(str(case["digest"]))
    ctx.nontrivial(any(c != "keep" for c in case["cut"][:len(case["objs"])]))


PARTS = [
    Part("object", object_cases, object_check, quick=800, thorough=12000, rule="at least two versions with content"),
    Part("validate", validate_cases, validate_check, quick=1400, thorough=20000, rule="some path is damaged"),
    Part("root", root_cases, root_check, quick=700, thorough=10000, rule="at least one object added"),
    Part("sidecar", sidecar_cases, sidecar_check, quick=1000, thorough=14000, rule="a sidecar was missing or wrong"),
]
