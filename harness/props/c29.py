"""C29: what an operation does depends on its arguments and on what is stored, not on what was done before."""
import copy
import json
import os
import zipfile

import ocfl
from hypothesis import strategies as st
from ocfl import object_utils
from ocfl.fsw import fsw_openfs
from ocfl.layout_registry import get_layout
from ocfl.namaste import find_namastes, get_namaste
from ocfl.validation_logger import ValidationLogger
from ocfl.validator import Validator
from ocfl.w3c_datetime import datetime_to_str, str_to_datetime

import gen
import layouts
import objects
import objgen
from fresh import Fresh
from core import Part, Raised, attempt, check, diff_trees, read_tree, rmtree, write_tree
from props import c12, c13

OPS = ["create", "build", "update", "update", "update", "edit", "edit", "extract", "extract", "extract_file", "validate", "validate", "tree",
       "dry_create", "dry_build", "inventory", "id", "validate_inventory", "no_source", "no_version", "outside", "damage", "repair", "abandon"]


def plain(x):
    """A returned value or raised exception as something that can be compared."""
    if isinstance(x, Raised):
        return ["raised", type(x.exc).__name__, str(x.exc)]
    if isinstance(x, ocfl.Inventory):
        return copy.deepcopy(x.data)
    if isinstance(x, ocfl.VersionMetadata):
        return dict(vars(x))
    if isinstance(x, ocfl.NewVersion):
        return [plain(x.inventory), sorted(x.files_to_copy.items())]
    if isinstance(x, Validator):
        return [sorted(x.log.messages), x.log.num_errors, x.log.num_warnings]
    if isinstance(x, (list, tuple)):
        return [plain(y) for y in x]
    return x


def moved(x, top):
    """The same with the path of the world taken out."""
    if isinstance(x, str):
        return x.replace(top, "<top>")
    if isinstance(x, list):
        return [moved(y, top) for y in x]
    if isinstance(x, dict):
        return {moved(k, top): moved(y, top) for k, y in x.items()}
    return x


# ---------------------------------------------------------------- objects

@st.composite
def op(draw, n):
    return [draw(st.sampled_from(OPS)), draw(st.integers(0, n - 1)), draw(st.integers(0, 10 ** 6)), draw(st.booleans())]


@st.composite
def object_cases(draw):
    n = draw(st.sampled_from([1, 1, 2]))
    objs = []
    for i in range(n):
        cfg = draw(gen.configs())
        objs.append({"id": "info:%d" % i, "cfg": cfg, "other": draw(st.one_of(st.none(), st.none(), gen.configs())), "hist": draw(gen.histories(min_versions=2, big=False, long_from=9)),
                     "meta": draw(gen.metadata(full=True))})
    return {"objs": objs, "first": [draw(st.sampled_from(["create", "build", "create", "none", "other"])) for _ in range(n)],
            "ops": draw(st.lists(op(n), min_size=3, max_size=12))}


class World:
    """One run of the operations; keep says whether Object instances are kept."""

    def __init__(self, case, top, keep):
        self.case, self.top, self.keep = case, top, keep
        self.made = {}
        self.count = 0

    def prepare(self):
        for i, o in enumerate(self.case["objs"]):
            objects.write_sources(os.path.join(self.top, "src%d" % i), o["hist"])

    def obj(self, i, ident=True):
        key = (i, ident)
        if not self.keep or key not in self.made:
            o = self.case["objs"][i]
            kw = dict(o["cfg"])
            if kw["fixity"] is not None:
                kw["fixity"] = list(kw["fixity"])
            self.made[key] = [ocfl.Object(identifier=o["id"] if ident else None, **kw), kw]
        return self.made[key][0]

    def run(self, name, i, r, flag):
        """Result of an operation, as it is, with what the caller gave it afterwards."""
        o = self.case["objs"][i]
        objdir = os.path.join(self.top, "obj%d" % i)
        src = os.path.join(self.top, "src%d" % i)
        n = len(o["hist"])
        vsrc = os.path.join(src, "v%d" % (1 + r % n))
        version = ["head", "v1", "v2", "v%d" % (1 + r % (n + 1))][r // 7 % 4]
        meta = objects.meta_obj(o["meta"])
        before = dict(vars(meta))
        obj = self.obj(i)
        self.count += 1
        out = os.path.join(self.top, "out%d" % self.count)
        if name in ("create", "dry_create"):
            res = attempt(obj.create, srcdir=vsrc, metadata=meta, objdir=None if name == "dry_create" else objdir)
        elif name == "other":       # someone else makes the object
            other = ocfl.Object(identifier=o["id"], **dict(o["other"] or o["cfg"], fixity=None,
                                                                    **{k: o["cfg"][k] for k in ("spec_version", "content_directory") if k in o["cfg"]}))
            res = attempt(other.create, srcdir=vsrc, metadata=meta, objdir=objdir)
        elif name in ("build", "dry_build"):
            metas = {k + 1: meta for k in range(n)}
            res = attempt(obj.build, srcdir=src, versions_metadata=metas, objdir=None if name == "dry_build" else objdir)
            check(metas == {k + 1: meta for k in range(n)}, "metadata given to build changed")
        elif name == "update":
            res = attempt(obj.add_version_with_content, objdir=objdir, srcdir=vsrc if r % 5 else None, metadata=meta, abort_if_no_difference=flag)
        elif name in ("edit", "abandon"):
            res = attempt(obj.start_new_version, objdir=objdir, srcdir=vsrc, metadata=meta, carry_content_forward=flag)
            if not isinstance(res, Raised):
                nv = res
                res = [plain(nv)]
                for lp in sorted(nv.inventory.current_version.logical_paths)[:1 + r % 2]:
                    res.append(plain(attempt(nv.delete if r // 3 % 2 else lambda x: nv.rename(x, x + "~"), lp)))
                for p in sorted(gen.tree_bytes(o["hist"][r % n]))[:2]:
                    res.append(plain(attempt(nv.add, p, "new/" + p)))
                if name == "edit":
                    res.append(plain(attempt(obj.write_new_version, nv)))
        elif name == "extract":
            res = [plain(attempt(obj.extract, objdir, version, out)), read_tree(out, dirs=True) if os.path.isdir(out) else None]
        elif name == "extract_file":
            ps = sorted(p for p, _ in o["hist"][r % n]) or ["none"]
            res = [plain(attempt(obj.extract_file, objdir, version, out, ps[r % len(ps)])), read_tree(out, dirs=True) if os.path.isdir(out) else None]
        elif name == "validate":
            if flag and os.path.isdir(objdir) and not isinstance(attempt(obj.open_obj_fs, objdir), Raised):
                res = attempt(obj.validate, log_warnings=bool(r % 2), check_digests=bool(r // 2 % 2))
            else:
                res = attempt(obj.validate, objdir=objdir, log_warnings=bool(r % 2), check_digests=bool(r // 2 % 2))
        elif name == "tree":
            res = attempt(obj.tree, objdir)
        elif name == "inventory":
            obj.open_obj_fs(self.top)       # somewhere else for now
            attempt(obj.open_obj_fs, objdir)
            res = attempt(obj.parse_inventory)
        elif name == "id":
            opened = attempt(obj.open_obj_fs, objdir, create=False)
            res = opened if isinstance(opened, Raised) else attempt(obj.id_from_inventory)
        elif name == "validate_inventory":
            res = attempt(obj.validate_inventory, os.path.join(objdir, "inventory.json"), force_spec_version=[None, "1.0", "1.1"][r % 3])
        elif name == "no_source":
            res = attempt(obj.add_version_with_content, objdir=objdir, srcdir=os.path.join(self.top, "nothing-here"), metadata=meta)
        elif name == "no_version":
            res = attempt(obj.extract, objdir, "v99", out)
        elif name == "outside":     # someone else updates the object
            other = ocfl.Object(**dict(o["cfg"], fixity=None))
            res = attempt(other.add_version_with_content, objdir=objdir, srcdir=vsrc, metadata=meta)
        elif name in ("damage", "repair"):
            files = [p for p in sorted(read_tree(objdir)) if "/" in p and "inventory" not in p] if os.path.isdir(objdir) else []
            res = None
            if files:
                p = os.path.join(objdir, files[0])
                with open(p, "rb") as fh:
                    data = fh.read()
                with open(p, "wb") as fh:
                    fh.write(data + b"DAMAGE" if name == "damage" else data.replace(b"DAMAGE", b""))
        res = moved(plain(res), self.top)
        check(dict(vars(meta)) == before, "%s changed the metadata object given: %s, was %s", name, vars(meta), before)
        for ob, kw in self.made.values():
            check(kw["fixity"] is None or kw["fixity"] == o["cfg"]["fixity"] or len(self.case["objs"]) > 1, "%s changed the list of fixity algorithms given: %s", name, kw["fixity"])
        return res, read_tree(objdir, dirs=True) if os.path.isdir(objdir) else None


def kept_objects(case, top):
    """Results of all operations with instances kept."""
    w = World(case, top, True)
    w.prepare()
    return [w.run(*op) for op in case["ops"]]


def new_objects(case, top, k):
    """Result of operation k, with new instances."""
    w = World(case, top, False)
    w.count = k
    if k == 0:
        w.prepare()
    return w.run(*case["ops"][k])


def objects_part(case, ctx):
    d = ctx.dir()
    ops = [[f, i, 7, False] for i, f in enumerate(case["first"]) if f != "none"] + case["ops"]
    case = dict(case, ops=ops)
    worked = 0
    done = []
    kept = FRESH.call("kept_objects", case, os.path.join(d, "one"))
    for k, (name, i, r, flag) in enumerate(ops):
        done.append(name)
        a, atree = kept[k]
        b, btree = FRESH.call("new_objects", case, os.path.join(d, "new"), k)
        check(a == b, "%s of object %d in the process and with the instance used for %s gives %s, with new ones %s", name, i, done[:-1], a, b)
        check(atree == btree, "%s of object %d in the process and with the instance used for %s leaves other files than with new ones: %s", name, i, done[:-1],
              diff_trees(btree or {}, atree or {}, "new instance", "kept instance"))
        worked += not (isinstance(a, list) and a and a[0] == "raised")
        ctx.event(name)
    ctx.nontrivial(worked >= 3)


# ---------------------------------------------------------------- storage roots

@st.composite
def root_cases(draw):
    n = draw(st.integers(1, 4))
    spec = draw(st.sampled_from(["1.0", "1.1", "1.1"]))
    objs = [draw(objgen.cases(max_versions=2, plain=draw(st.booleans()))) for _ in range(n)]
    for i, o in enumerate(objs):
        o["id"] = "info:o%d" % (i if draw(st.integers(0, 5)) else 0)
    kinds = ["add", "add", "add", "outside add", "remove", "list", "list", "validate", "validate", "damage", "stray", "unstray", "swap", "swap", "unlayout", "relayout", "path", "info"]
    return {"name": draw(st.sampled_from(3 * sorted(set(layouts.ALIASES) - {layouts.UUID}) + [layouts.UUID])), "spec": spec, "objs": objs,
            "ops": draw(st.lists(st.tuples(st.sampled_from(kinds), st.integers(0, n - 1), st.integers(0, 10 ** 6)).map(list), min_size=4, max_size=12))}


class RootWorld:
    def __init__(self, case, top, keep):
        self.case, self.top, self.keep = case, top, keep
        self.root = os.path.join(top, "root")
        self.made = None

    def prepare(self):
        os.makedirs(self.top)
        ocfl.StorageRoot(root=self.root, layout_name=self.case["name"]).initialize(spec_version=self.case["spec"])
        for i, o in enumerate(self.case["objs"]):
            objgen.write(os.path.join(self.top, "obj%d" % i), objgen.make(dict(o, noinv=[False] * len(o["hist"]))))

    def store(self):
        if self.made is None or not self.keep:
            self.made = ocfl.StorageRoot(root=self.root)
        return self.made

    def run(self, name, i, r):
        s = self.store()
        src = os.path.join(self.top, "obj%d" % i)
        extra = None
        if name == "add":
            res = attempt(s.add, src)
        elif name == "outside add":
            res = attempt(ocfl.StorageRoot(root=self.root).add, src)
        elif name == "remove":
            paths = sorted(p for p, _, fs in os.walk(self.root) if p != self.root and any(f.startswith("0=ocfl_object") for f in fs))
            if paths:
                rmtree(paths[r % len(paths)])
            res = len(paths)
        elif name == "list":
            res = attempt(lambda: sorted(map(list, s.list_objects())))
            extra = None if isinstance(res, Raised) else s.num_objects
        elif name == "validate":
            res = attempt(s.validate, validate_objects=bool(r % 4), check_digests=bool(r // 4 % 2), log_warnings=bool(r // 8 % 2), max_errors=[100, 1][r // 16 % 2])
            extra = [s.num_objects, s.good_objects, sorted([p, sorted(m.split("\n"))] for p, m in s.errors), sorted(s.log.messages), s.log.num_errors, s.log.num_warnings, s.spec_version]
        elif name == "damage":
            files = sorted(p for p in read_tree(self.root) if "/" in p and not p.startswith("extensions"))
            res = len(files)
            if files:
                with open(os.path.join(self.root, files[r % len(files)]), "ab") as fh:
                    fh.write(b"x")
        elif name == "stray":
            p = os.path.join(self.root, ["zz-stray/deep", "zz-stray"][r % 2], "file")
            os.makedirs(os.path.dirname(p), exist_ok=True)
            with open(p, "wb") as fh:
                fh.write(b"x")
            res = None
        elif name == "unstray":
            res = os.path.isdir(os.path.join(self.root, "zz-stray"))
            if res:
                rmtree(os.path.join(self.root, "zz-stray"))
        elif name == "swap":        # another layout, or other parameters, from now on
            names = 3 * sorted(set(layouts.ALIASES) - {layouts.UUID}) + [layouts.UUID]
            target = names[r % len(names)]
            other = ocfl.StorageRoot(root=os.path.join(self.top, "tmp"), layout_name=target)
            res = attempt(other.initialize, layout_params=['{"tupleSize": 2, "numberOfTuples": 2}', None, '{"digestAlgorithm": "md5"}'][r // 100 % 3] if "ash" in target or "0004" in target else None)
            for p, data in (read_tree(other.root) if os.path.isdir(other.root) else {}).items():
                if not p.startswith("0="):
                    os.makedirs(os.path.dirname(os.path.join(self.root, p)), exist_ok=True)
                    with open(os.path.join(self.root, p), "wb") as fh:
                        fh.write(data)
            if os.path.isdir(other.root):
                rmtree(other.root)
        elif name in ("unlayout", "relayout"):      # for a while the layout file cannot be read
            p, q = os.path.join(self.root, "ocfl_layout.json"), os.path.join(self.root, "ocfl_layout.json.away")
            res = None
            if name == "unlayout" and os.path.exists(p) and not os.path.exists(q):
                os.rename(p, q)
                with open(p, "w") as fh:
                    fh.write("{broken")
            elif name == "relayout" and os.path.exists(q):
                os.rename(q, p)
        elif name == "path":
            def where():
                s.open_root_fs()
                s.check_root_structure()
                return s.object_path("info:o%d" % (r % 7))
            res = attempt(where)
        else:
            def about():
                s.open_root_fs()
                s.check_root_structure()
                return [s.layout_name, s.spec_version]
            res = attempt(about)
        return moved(plain([res, extra]), self.top), read_tree(self.root, dirs=True)


def kept_roots(case, top):
    """Results of all operations with one StorageRoot."""
    w = RootWorld(case, top, True)
    w.prepare()
    return [w.run(*op) for op in case["ops"]]


def new_roots(case, top, k):
    """Result of operation k, with a new StorageRoot."""
    w = RootWorld(case, top, False)
    if k == 0:
        w.prepare()
    return w.run(*case["ops"][k])


def roots_part(case, ctx):
    d = ctx.dir()
    done = []
    worked = 0
    kept = FRESH.call("kept_roots", case, os.path.join(d, "one"))
    for k, (name, i, r) in enumerate(case["ops"]):
        done.append(name)
        a, atree = kept[k]
        b, btree = FRESH.call("new_roots", case, os.path.join(d, "new"), k)
        check(a == b, "%s in the process and with the StorageRoot used for %s gives %s, with new ones %s", name, done[:-1], a, b)
        check(atree == btree, "%s in the process and with the StorageRoot used for %s leaves other files than with new ones: %s", name, done[:-1], diff_trees(btree, atree, "new", "kept"))
        worked += name in ("add", "list", "validate") and not (isinstance(a[0], list) and a[0] and a[0][0] == "raised")
        ctx.event(name)
    ctx.nontrivial(worked >= 3)


# ---------------------------------------------------------------- validators

@st.composite
def validator_cases(draw):
    n = draw(st.integers(2, 5))
    return {"objs": [{"obj": draw(objgen.cases(max_versions=3)),
                      "muts": [[draw(st.sampled_from(c13.HOW)), draw(st.integers(0, 10 ** 6)), draw(st.integers(0, 10 ** 6)),
                                draw(st.integers(0, 10 ** 6)), draw(st.sampled_from(c12.EDITS)), draw(st.sampled_from(c12.SCALARS))] for _ in range(draw(st.sampled_from([0, 0, 1, 2])))]} for _ in range(n)],
            "how": [draw(st.sampled_from(["dir", "dir", "zip", "missing"])) for _ in range(n)],
            "flags": [draw(st.booleans()) for _ in range(4)]}


def run_validators(case, d, which):
    """For the objects with numbers in which, what one Validator says of each."""
    warn, errors, digests, lax = case["flags"]
    v = Validator(log_warnings=warn, log_errors=errors, check_digests=digests, lax_digests=lax)
    out = []
    for k in which:
        c, how = case["objs"][k], case["how"][k]
        tree = objgen.make(c["obj"])
        for m in c["muts"]:
            c13.mutate(tree, m)
            c13.normalize(tree)
        path = os.path.join(d, "obj")       # every object at the same place
        if os.path.isdir(path):
            rmtree(path)
        if how == "dir":
            objgen.write(path, tree)
        elif how == "zip":
            path = os.path.join(d, "obj.zip")
            with zipfile.ZipFile(path, "w") as z:
                for p, data in tree.items():
                    z.writestr(p + "/" if data is None else p, data or b"")
            path = "zip://" + path
        seen = [len(v.log.messages), v.log.num_errors, v.log.num_warnings]
        res = plain(attempt(v.validate_object, path))
        out.append({"result": res, "messages": sorted(v.log.messages[seen[0]:]), "counts": [v.log.num_errors - seen[1], v.log.num_warnings - seen[2]],
                    "id, versions, algorithm, content directory": [v.id, v.spec_version, v.digest_algorithm, v.content_directory]})
    return out


def validators_part(case, ctx):
    d = ctx.dir()
    n = len(case["objs"])
    kept = FRESH.call("run_validators", case, d, list(range(n)))
    bad = 0
    for k in range(n):
        new = FRESH.call("run_validators", case, d, [k])[0]
        for what in new:
            check(kept[k][what] == new[what], "object %d of %d (%s): %s is %s with the Validator (and in the process) used before, %s with a new one",
                  k + 1, n, case["how"][k], what, kept[k][what], new[what])
        bad += new["result"] is not True
    ctx.event("%d objects" % n)
    ctx.nontrivial(0 < bad < n)


# ---------------------------------------------------------------- functions

ALGS = ["md5", "sha1", "sha256", "sha512", "sha512/256", "blake2b-160", "blake2b-512", "sha512-spec-ex", "none"]
DIRTREES = [{"f": b"x"}, {"0=ocfl_object_1.1": b"ocfl_object_1.1\n"}, {"0=ocfl_1.0": b"ocfl_1.0\n"}, {"0=ocfl_1.1": b"x"}, {"0=ocfl_object_1.0": b"x", "a/b": b""}, {}]


@st.composite
def call(draw):
    kind = draw(st.sampled_from(["string", "file", "file", "norm", "regex", "layout", "layout", "layout", "date", "dir", "dir", "next", "first", "used", "bag", "unbag", "sidecar", "inventory"]))
    alg = draw(st.sampled_from(ALGS))
    if kind == "string":
        return [kind, draw(st.sampled_from(["", "a", "b", "é"])), alg]
    if kind == "file":
        return [kind, draw(st.sampled_from(["f", "g"])), draw(st.sampled_from(["", "a", "b", "cc"])), alg, draw(st.booleans())]
    if kind == "norm":
        return [kind, draw(st.sampled_from(["AB", "ab", "", "zZ"])), alg]
    if kind == "regex":
        return [kind, alg, draw(st.sampled_from(["a", "0", "G"])) * draw(st.sampled_from([32, 40, 64, 128]))]
    if kind == "layout":
        name = draw(st.sampled_from(NAMES))
        params = draw(layouts.params_for(name))
        return [kind, name, params, draw(st.sampled_from(["abc", "info:x/y z", "abcdefghij", "é", "uuid:f81d4fae-7dec-11d0-a765-00a0c91e6bf6", "urn:uuid:f81d4fae-7dec-11d0-a765-00a0c91e6bf6"]))]
    if kind == "date":
        return [kind, draw(st.sampled_from(["2020", "2020-02", "2020-02-30", "2020-01-01T01:02:03Z", "2020-01-01T01:02:03.5+01:00", "x"])), draw(st.integers(0, 10 ** 9))]
    if kind == "dir":
        return [kind, draw(st.integers(0, len(DIRTREES) - 1)), draw(st.sampled_from(["d", "d/f", "nothing"]))]
    if kind == "next":
        return [kind, draw(st.sampled_from(["v1", "v9", "v09", "v00", "v0001", "v0999", "v01", "x", "v1/"]))]
    if kind == "first":
        return [kind, draw(st.sampled_from([None, 0, 1, 2, 5])), draw(st.sampled_from(["a/b/c", "a", "/a/b", ""]))]
    if kind == "used":
        return [kind, draw(st.sampled_from(["a", "a__2", "b"])), draw(st.lists(st.sampled_from(["a", "a__2", "a__3", "b", "a__2__2"]), unique=True))]
    if kind == "sidecar":
        return [kind, draw(st.integers(0, len(DIRTREES) - 1)), draw(st.sampled_from(["", "0", "1"]))]
    if kind == "inventory":
        return [kind, draw(st.sampled_from([None, "1.0", "1.1"])), draw(st.sampled_from(["1.0", "1.1"])), draw(st.sampled_from(["none", "head", "contentDirectory", "id", "versions", "manifest", "case", "extra"])), draw(st.booleans())]
    return [kind, draw(gen.metadata()), draw(st.sampled_from(["m1", "m2"])), draw(st.booleans())]


DIGEST = "0" * 128
INV = {"id": "info:x", "type": "", "digestAlgorithm": "sha512", "head": "v1", "contentDirectory": "c", "manifest": {DIGEST: ["v1/c/a"]},
       "versions": {"v1": {"created": "2020-01-01T00:00:00Z", "message": "m", "user": {"name": "n", "address": "mailto:n@x"}, "state": {DIGEST: ["a"]}}}}
NAMES = [layouts.N0002, layouts.N0003, layouts.N0003, layouts.QUOTED, layouts.TUPLE, layouts.TUPLE, layouts.UUID]


@st.composite
def function_cases(draw):
    return {"calls": draw(st.lists(call(), min_size=2, max_size=12))}


def fill(d, tree):
    if os.path.isdir(d):
        rmtree(d)
    os.makedirs(d)
    write_tree(d, tree)


def one_call(d, kind, *args):
    if kind == "string":
        return plain(attempt(ocfl.string_digest, *args))
    if kind == "file":
        name, text, alg, osfs = args
        with open(os.path.join(d, name), "w", encoding="utf-8") as fh:
            fh.write(text)
        if osfs:
            return plain(attempt(ocfl.file_digest, name, alg, fs=fsw_openfs(d)))
        return plain(attempt(ocfl.file_digest, os.path.join(d, name), alg))
    if kind == "norm":
        return plain(attempt(ocfl.normalized_digest, *args))
    if kind == "regex":
        rx = attempt(ocfl.digest_regex, args[0])
        return plain(rx) if isinstance(rx, Raised) else str(rx)
    if kind == "layout":
        name, params, ident = args

        def where():
            lay = get_layout(name)
            if params is not None:
                lay.check_and_set_layout_params(config=dict(params), require_extension_name=False)
            return [lay.identifier_to_path(ident), lay.config, lay.NAME]
        return plain(attempt(where))
    if kind == "date":
        return [str(plain(attempt(str_to_datetime, args[0]))), plain(attempt(datetime_to_str, args[1]))]
    if kind == "dir":
        fill(os.path.join(d, "d"), DIRTREES[args[0]])
        return plain(attempt(ocfl.find_path_type, os.path.join(d, args[1])))
    if kind == "next":
        return [plain(attempt(object_utils.next_version_directory, args[0])), plain(attempt(object_utils.parse_version_directory, args[0]))]
    if kind == "first":
        return [plain(attempt(object_utils.first_version_directory, args[0])), plain(attempt(object_utils.remove_first_directory, args[1]))]
    if kind == "used":
        used = set(args[1])
        return [plain(attempt(object_utils.make_unused_filepath, args[0], used)), sorted(used)]
    if kind == "sidecar":
        tree = dict(DIRTREES[args[0]])
        for c in args[1]:
            tree["%s=tag" % c] = b"tag\n"
        fill(os.path.join(d, "n"), tree)
        return [[n.filename, n.tvalue] if not isinstance(n, Raised) else plain(n) for n in
                [attempt(get_namaste, os.path.join(d, "n"), "")]] + [sorted(n.filename for n in find_namastes(0, os.path.join(d, "n")))]
    if kind == "inventory":
        force, spec, edit, warn = args
        data = copy.deepcopy(INV)
        data["type"] = "https://ocfl.io/%s/spec/#inventory" % spec
        if edit == "case":
            data["digestAlgorithm"] = "SHA512"
        elif edit == "extra":
            data["extra"] = 1
        else:
            data.pop(edit, None)
        log = ValidationLogger(log_warnings=warn)
        kw = {} if force is None else {"force_spec_version": force}
        v = ocfl.InventoryValidator(log=log, **{k: x for k, x in kw.items() if k != "force_spec_version"})
        return [plain(attempt(v.validate, ocfl.Inventory(data), **kw)), sorted(log.messages), v.digest_algorithm, v.id, v.content_directory]
    meta = objects.meta_obj(args[0])
    src, dst = os.path.join(d, "bag"), os.path.join(d, "out")
    fill(src, {"p": args[1].encode()})
    first = plain(attempt(ocfl.bag_extracted_version, src, meta))
    if kind == "bag":
        return [first, {p: b for p, b in read_tree(src).items() if "/" in p or p == "bag-info.txt" and args[2]}, dict(vars(meta))]
    if args[2]:
        with open(os.path.join(src, "data/p"), "ab") as fh:
            fh.write(b"x")
    got = ocfl.VersionMetadata()
    return [first, plain(attempt(ocfl.bag_as_source, src, got)), dict(vars(got))]


def run_calls(case, d, which):
    return [moved(one_call(d, *case["calls"][k]), d) for k in which]


def functions_part(case, ctx):
    d = ctx.dir()
    n = len(case["calls"])
    kept = FRESH.call("run_calls", case, d, list(range(n)))
    worked = 0
    for k in range(n):
        new = FRESH.call("run_calls", case, d, [k])[0]
        check(kept[k] == new, "call %s after %s gives %s, as the first one %s", case["calls"][k], case["calls"][:k], kept[k], new)
        worked += new[:1] != ["raised"]
        ctx.event(case["calls"][k][0])
    ctx.nontrivial(worked >= 2)


FRESH = Fresh(kept_objects=kept_objects, new_objects=new_objects, kept_roots=kept_roots, new_roots=new_roots, run_validators=run_validators,
              run_calls=run_calls)

PARTS = [
    Part("functions", function_cases, functions_part, quick=1000, thorough=15000, rule="at least two calls returned something"),
    Part("objects", object_cases, objects_part, quick=1200, thorough=20000, rule="at least three operations did not raise"),
    Part("roots", root_cases, roots_part, quick=900, thorough=12000, rule="at least three additions, listings or validations did not raise"),
    Part("validators", validator_cases, validators_part, quick=900, thorough=15000, rule="valid and invalid objects in turn"),
]
