"""C30: objects and storage roots are made, updated and read the same wherever they are and however the place is named."""
import json
import logging
import os
import re
import zipfile

import fsspec
import ocfl
from hypothesis import strategies as st

import gen
import layouts
import objects
import objgen
from core import Part, Raised, attempt, check, diff_trees, read_tree, write_tree
from props.c27 import Run
from props.c29 import moved, plain

PLACES = ["d", "a b", "é/ü", "a%20b", "x#y", "q?z=1&w", "[z]*", "d.zip", "~", "-n", "a:b", "{x}", "s3", "D d/" + "e" * 200, "a\\b", "'\"$x", "obj", "v1", "a+b", "%2e", "\n"]
HOW = ["abs", "rel", "./rel", "updown", "file", "double", "dots", "memory", "memory"]
SRC = ["abs", "rel", "./rel", "updown", "file", "slash", "relslash", "memory", "zip", "zipdirs", "here"]


class Place:
    """A directory of one of the kinds of storage, by one of its names."""

    def __init__(self, d, place, rel, how):
        self.d, self.place, self.rel, self.how = d, place, rel, how
        self.full = os.path.join(d, place, rel)
        self.mem = fsspec.filesystem("memory") if how == "memory" else None
        if self.mem:
            self.top = "/" + os.path.basename(d) + "/" + os.path.join(place, rel)
            self.mem.makedirs(os.path.dirname(self.top), exist_ok=True)

    def name(self):
        d, p = self.d, os.path.join(self.place, self.rel)
        return {"abs": self.full, "rel": p, "./rel": "./" + p, "updown": "../" + os.path.basename(d) + "/" + p, "file": "file://" + self.full,
                "double": d + "//" + p, "dots": os.path.join(d, self.place, ".", "..", os.path.basename(self.place), self.rel), "memory": "memory:/" + getattr(self, "top", ""),
                "slash": self.full + "/", "relslash": p + "/", "zip": "zip://" + self.full + ".zip", "zipdirs": "zip://./" + p + ".zip", "here": "."}[self.how]

    def put(self, tree):
        if self.how == "memory":
            self.mem.makedirs(self.top, exist_ok=True)
            for p, data in tree.items():
                self.mem.makedirs(os.path.dirname(self.top + "/" + p), exist_ok=True)
                self.mem.pipe_file(self.top + "/" + p, data)
        elif self.how.startswith("zip"):
            with zipfile.ZipFile(self.full + ".zip", "w") as z:
                dirs = set()
                for p, data in tree.items():
                    q = os.path.dirname(p)
                    while self.how == "zipdirs" and q and q not in dirs:
                        dirs.add(q)
                        z.writestr(q + "/", b"")
                        q = os.path.dirname(q)
                    z.writestr(p, data)
        else:
            write_tree(self.full, tree)

    def tree(self):
        """What is there, without empty directories."""
        if self.how != "memory":
            return read_tree(self.full) if os.path.isdir(self.full) else None
        if not self.mem.isdir(self.top):
            return None
        return {p[len(self.top) + 1:]: self.mem.cat_file(p) for p in self.mem.find(self.top)}

    def clear(self):
        if self.mem:
            for p in [p for p in self.mem.store if p.startswith(self.top + "/")]:
                del self.mem.store[p]
            self.mem.pseudo_dirs[:] = [p for p in self.mem.pseudo_dirs if not (p + "/").startswith(self.top + "/")]


OPS = ["update", "update", "edit", "edit", "metadata", "extract", "extract", "extract", "extract_file", "validate", "tree", "inventory", "again", "alg"]


@st.composite
def object_cases(draw):
    hist = draw(gen.histories(min_versions=2, big=draw(st.sampled_from([False, False, True])), long_from=9))
    return {"id": draw(gen.object_ids()), "cfg": draw(gen.configs()), "hist": hist, "meta": draw(gen.metadata(full=True)),
            "place": draw(st.sampled_from(PLACES)), "how": draw(st.sampled_from(HOW)), "first": draw(st.sampled_from(["create", "create", "build"])),
            "ops": [[draw(st.sampled_from(OPS)), draw(st.integers(0, 10 ** 6)), draw(st.sampled_from(SRC)), draw(st.sampled_from(["abs", "rel", "./rel", "updown", "file", "double", "memory", "here"]))]
                    for _ in range(draw(st.integers(2, 6)))],
            "src": draw(st.sampled_from([s for s in SRC]))}


class World:
    def __init__(self, case, d, plain_one):
        self.case, self.d, self.plain = case, d, plain_one
        self.place = "d" if plain_one else case["place"]
        os.makedirs(os.path.join(d, self.place))
        self.obj = Place(d, self.place, "obj", "abs" if plain_one else case["how"])
        self.used = [self.obj]

    def at(self, rel, how):
        p = Place(self.d, self.place, rel, "abs" if self.plain else how)
        self.used.append(p)
        return p

    def source(self, k, how, trees):
        """A source directory or archive; the name may be relative to the directory that is current from then on."""
        tree = {}
        for prefix, t in trees:
            tree.update({prefix + p: b for p, b in gen.tree_bytes(t).items()})
        if how == "memory" and trees[0][0] and any(not t for _, t in trees) or how.startswith("zip") and (not tree or trees[0][0] and any(not t for _, t in trees)):
            how = "abs"     # needs directories with nothing in them
        p = self.at("src%d" % k, how)
        p.put(tree)
        if p.how in ("abs", "rel", "./rel", "updown", "file", "slash", "relslash", "here"):
            for prefix, _ in trees:
                os.makedirs(os.path.join(p.full, prefix), exist_ok=True)
        os.chdir(p.full if p.how == "here" else self.d)
        return p, tree

    def run(self, k, name, r, src, dst):
        case = self.case
        n = len(case["hist"])
        meta = objects.meta_obj(case["meta"])
        kw = objects.object_kwargs(case["id"], case["cfg"])
        obj = ocfl.Object(**kw)
        objdir = self.obj.name()
        extra = None
        s = None
        here = self.obj.how not in ("rel", "./rel", "updown")      # its name does not depend on the directory
        if not here and src == "here":
            src = "rel"
        if name in ("create", "again"):
            s, stree = self.source(k, src, [["", case["hist"][0]]])
            res = attempt(obj.create, srcdir=s.name(), metadata=meta, objdir=objdir)
        elif name == "build":
            s, stree = self.source(k, src, [["v%d/" % (i + 1), t] for i, t in enumerate(case["hist"])])
            res = attempt(obj.build, srcdir=s.name(), versions_metadata={i + 1: meta for i in range(n)}, objdir=objdir)
        elif name == "update":
            s, stree = self.source(k, src, [["", case["hist"][r % n]]])
            res = attempt(obj.add_version_with_content, objdir=objdir, srcdir=s.name(), metadata=meta)
        elif name == "metadata":
            res = attempt(obj.add_version_with_content, objdir=objdir, metadata=meta)
        elif name == "alg":
            def change():
                nv = obj.start_new_version(objdir=objdir, metadata=meta, digest_algorithm=["sha256", "sha512"][r % 2], carry_content_forward=True)
                return obj.write_new_version(nv)
            res = attempt(change)
        elif name == "edit":
            s, stree = self.source(k, src, [["", case["hist"][r % n]]])

            def edit():
                nv = obj.start_new_version(objdir=objdir, srcdir=s.name(), metadata=meta, carry_content_forward=True)
                lps = sorted(nv.inventory.current_version.logical_paths)
                for lp in lps[:r % 3]:
                    nv.delete(lp)
                for lp in lps[2:3 + r % 2]:
                    nv.rename(lp, lp + "~")
                for p in sorted(gen.tree_bytes(case["hist"][r % n]))[:2]:
                    nv.add(p, "new/" + p, content_path="%s/%s/here/%s" % (nv.inventory.head, nv.content_directory, p) if r % 5 == 0 else None)
                return obj.write_new_version(nv)
            res = attempt(edit)
        elif name in ("extract", "extract_file"):
            version = ["head", "v1", "v2", "v9"][r % 4]
            if dst == "here" and not here or dst in ("file", "memory") and name == "extract":
                dst = "rel"     # extract is only for local destinations
            t = self.at("out%d" % k, dst)
            if t.how == "here":
                os.makedirs(t.full)
                os.chdir(t.full)
            else:
                os.chdir(self.d)
            if name == "extract":
                res = attempt(obj.extract, objdir, version, t.name())
            else:
                ps = sorted(p for p, _ in case["hist"][0]) or ["none"]
                res = attempt(obj.extract_file, objdir, version, t.name(), ps[r % len(ps)])
            extra = t.tree() or None
        elif name == "validate":
            ok = attempt(obj.validate, objdir=objdir, check_digests=bool(r % 2))
            res = ok if isinstance(ok, Raised) else [ok[0], sorted(ok[1].log.codes)]
        elif name == "tree":
            res = attempt(obj.tree, objdir)
            if isinstance(res, str):
                check(res.startswith("[" + objdir + "]\n"), "tree does not start with the name given: %s", res)
                res = res[len(objdir):]
        else:
            def read():
                o = ocfl.Object(path=objdir, lax_digests=kw.get("lax_digests", False))
                return [o.parse_inventory(), o.id_from_inventory()]
            res = attempt(read)
        if s is not None and not s.how.startswith("zip"):
            check((s.tree() or {}) == stree, "%s changed the source", name)
        if isinstance(res, Raised):
            res = ["raised", type(res.exc).__name__]
        return moved(plain(res), self.d), extra, self.obj.tree()


def failed(res):
    return isinstance(res, list) and res[:1] == ["raised"]


def objects_part(case, ctx):
    one = World(case, os.path.join(ctx.dir(), "one"), True)
    two = World(case, os.path.join(ctx.dir(), "two"), False)
    done = 0
    ops = [[case["first"], 0, case["src"], "abs"]] + case["ops"]
    try:
        for k, op in enumerate(ops):
            os.chdir(one.d)
            a = one.run(k, *op)
            os.chdir(two.d)
            b = two.run(k, *op)
            if k == 0:
                check(not failed(a[0]), "%s: %s", op[0], a[0])
            how = "object as %s, source as %s, destination as %s" % (two.obj.name(), op[2], op[3])
            check(a[0] == b[0], "%s with %s gives %s, elsewhere %s", op[0], how, b[0], a[0])
            check(a[1] == b[1], "%s with %s makes %s, elsewhere %s", op[0], how, b[1], a[1])
            check(a[2] == b[2], "%s with %s leaves another object: %s", op[0], how, diff_trees(a[2] or {}, b[2] or {}, "elsewhere", "here"))
            done += not failed(a[0])
            ctx.event(op[0])
        left = [x for x in os.listdir(two.d) if x != two.place.split("/")[0]]
        check(not left, "something else was made: %s", left)
    finally:
        for p in two.used:
            p.clear()
    ctx.event("object as " + case["how"])
    ctx.nontrivial(done >= 3 and (case["how"] != "abs" or case["place"] != "d"))


# ---------------------------------------------------------------- storage roots

IDS = ["a", "ab", "abc", "a*", "a?", "[a]b", "*", "{a,b}", "a b", "é", "x%41", "info:x", "~", "a\\b", "a#b", "http://x/y?z", "f", "a/b", "e" * 101, "-", "0", "obj::1"]


@st.composite
def root_cases(draw):
    n = draw(st.integers(1, 5))
    name = draw(st.sampled_from([layouts.N0002, layouts.N0002, layouts.N0003, layouts.QUOTED, layouts.TUPLE]))
    ids = draw(st.lists(st.sampled_from(IDS), min_size=n, max_size=n))
    kinds = ["abs", "rel", "./rel", "updown", "file", "slash", "relslash", "memory", "zip", "zipdirs", "badzip", "badzip"]
    return {"name": name, "params": draw(layouts.params_for(name)), "spec": draw(st.sampled_from(["1.0", "1.1", "1.1"])),
            "objs": [dict(draw(objgen.cases(max_versions=2)), id=i) for i in ids], "from": [draw(st.sampled_from(kinds)) for _ in range(n)],
            "place": draw(st.sampled_from(PLACES)), "how": draw(st.sampled_from(HOW + ["slash", "relslash", "memory"])),
            "use": [draw(st.sampled_from(["list", "validate", "path", "none"])) for _ in range(n)]}


def spoil(zname):
    """Change the last content file in a zip file so that it can no longer be read; False if there is none."""
    with zipfile.ZipFile(zname) as z:
        infos = [i for i in z.infolist() if "/content/" in i.filename and i.file_size or i.filename.count("/") > 1 and i.file_size]
        if not infos:
            return False
        i = infos[-1]
        with open(zname, "r+b") as fh:
            fh.seek(i.header_offset + 26)
            h = fh.read(4)
            at = i.header_offset + 30 + int.from_bytes(h[:2], "little") + int.from_bytes(h[2:], "little")
            fh.seek(at)
            c = fh.read(1)
            fh.seek(at)
            fh.write(bytes([c[0] ^ 1]))
    return True


def run_root(case, d, is_plain):
    """Results of all operations; with the places left, and the names of the storage root."""
    place = "d" if is_plain else case["place"]
    os.makedirs(os.path.join(d, place))
    root = Place(d, place, "root", "abs" if is_plain else case["how"])
    used = [root]
    out = []

    def note(what, res):
        if isinstance(res, Raised):
            res = ["raised", type(res.exc).__name__]
        out.append([what, moved(plain(res), d), root.tree()])
    os.chdir(d)
    params = None if case["params"] is None else json.dumps(case["params"])
    note("initialize", attempt(lambda: ocfl.StorageRoot(root=root.name(), layout_name=case["name"]).initialize(spec_version=case["spec"], layout_params=params)))
    for i, o in enumerate(case["objs"]):
        how = case["from"][i]
        tree = {p: b for p, b in objgen.make(dict(o, noinv=[False] * len(o["hist"]))).items() if b is not None}
        p = Place(d, place, "obj%d" % i, how if not is_plain or how == "badzip" else "abs")
        used.append(p)
        if how == "badzip":
            p.how = "zip"
            p.put(tree)
            spoil(p.full + ".zip")
        else:
            p.put(tree)
        if case["use"][i] == "none" and root.how not in ("rel", "./rel", "updown", "relslash"):
            os.chdir("/")       # somewhere else
            if p.how in ("rel", "./rel", "updown", "relslash", "zipdirs"):
                os.chdir(d)
        s = ocfl.StorageRoot(root=root.name())
        note("add from " + how, attempt(s.add, p.name()))
        os.chdir(d)
        if not p.how.startswith("zip"):
            check(p.tree() == tree, "add changed the source")
        s = ocfl.StorageRoot(root=root.name())
        if case["use"][i] == "list":
            note("list", attempt(lambda: sorted(map(list, s.list_objects()))))
        elif case["use"][i] == "validate":
            note("validate", attempt(lambda: [s.validate(), s.num_objects, s.good_objects, sorted(s.log.codes)]))
        elif case["use"][i] == "path":
            def where():
                s.open_root_fs()
                s.check_root_structure()
                return [attempt_plain(s.object_path, x) for x in IDS]
            note("path", attempt(where))
    note("validate", attempt(lambda: [ocfl.StorageRoot(root=root.name()).validate()]))
    note("list", attempt(lambda: sorted(map(list, ocfl.StorageRoot(root=root.name()).list_objects()))))
    left = [x for x in os.listdir(d) if x != place.split("/")[0]]
    check(not left, "something else was made: %s", left)
    return out, used


def attempt_plain(f, *args):
    res = attempt(f, *args)
    return ["raised", type(res.exc).__name__] if isinstance(res, Raised) else res


def roots_part(case, ctx):
    used = []
    try:
        a, u = run_root(case, os.path.join(ctx.dir(), "one"), True)
        used += u
        b, u = run_root(case, os.path.join(ctx.dir(), "two"), False)
        used += u
        good = 0
        for x, y in zip(a, b):
            check(x[1] == y[1], "%s with storage root at %s gives %s, elsewhere %s", x[0], u[0].name(), y[1], x[1])
            check(x[2] == y[2], "%s with storage root at %s leaves another tree: %s", x[0], u[0].name(), diff_trees(x[2] or {}, y[2] or {}, "elsewhere", "here"))
            good += x[0].startswith("add") and not failed(x[1])
            if x[0].startswith("add"):
                ctx.event("%s: %s" % (x[0], "refused" if failed(x[1]) else "added"))
    finally:
        for p in used:
            p.clear()
    ctx.event("root as " + case["how"])
    ctx.nontrivial(good >= 1 and (case["how"] != "abs" or case["place"] != "d"))


# ---------------------------------------------------------------- command line tools

TOOL_HOW = ["abs", "rel", "./rel", "updown", "double", "dots", "slash", "relslash", "here"]
TOOL_IDS = ["a b", "é", "x", "info:a", "~", "a*", "-x", "ab", "a#b", "[a]"]


@st.composite
def tool_cases(draw):
    hist = draw(gen.histories(min_versions=2, big=False, long_from=9))
    return {"hist": hist, "ids": draw(st.lists(st.sampled_from(TOOL_IDS), min_size=2, max_size=2, unique=True)), "place": draw(st.sampled_from(PLACES)),
            "hows": [draw(st.sampled_from(TOOL_HOW)) for _ in range(26)], "files": [draw(st.sampled_from(["file://", ""])) for _ in range(26)], "env": draw(st.booleans()),
            "layout": draw(st.sampled_from([None, layouts.N0002, layouts.N0003, layouts.N0002, layouts.N0003, layouts.QUOTED])), "prior": draw(st.booleans()),
            "damage": draw(st.sampled_from([None, None, "content", "sidecar"])), "algs": [draw(st.sampled_from(["sha256", "sha512"])) for _ in range(2)]}


class Tools:
    """Commands in a directory of its own."""

    def __init__(self, case, d, is_plain):
        self.case, self.d, self.plain = case, d, is_plain
        self.place = "d" if is_plain else case["place"]
        self.out = []
        self.k = 0
        os.makedirs(os.path.join(d, self.place))

    def path(self, rel):
        return os.path.join(self.d, self.place, rel)

    def name(self, rel, url=False, here=False):
        """One of the names of something; "." when the current directory can be it."""
        how, scheme = self.case["hows"][self.k % 26], self.case["files"][self.k % 26]
        self.k += 1
        if self.plain:
            return self.path(rel)
        isdir = os.path.isdir(self.path(rel))
        if url and scheme:
            return scheme + self.path(rel)
        if how == "here" and not here or how in ("slash", "relslash") and not isdir or how == "dots" and not os.path.isdir(self.path("")):
            how = "rel"
        if how == "here":
            if isdir:
                os.chdir(self.path(rel))
                return "."
            if not os.path.isdir(os.path.dirname(self.path(rel))):
                return self.path(rel)
            os.chdir(os.path.dirname(self.path(rel)))
            return os.path.basename(rel)
        return Place(self.d, self.place, rel, how).name()

    def run(self, script, *argv, names=(), env=None, status=None):
        shown = []
        handler = logging.Handler(logging.WARNING)
        handler.emit = lambda record: shown.append(record.getMessage())
        disabled, level = logging.root.manager.disable, logging.root.level
        handlers, logging.root.handlers = logging.root.handlers, [handler]
        logging.disable(logging.NOTSET)
        logging.root.setLevel(logging.WARNING)
        try:
            r = Run(script, *argv, env=env)
        finally:
            logging.root.handlers = handlers
            logging.disable(disabled)
            logging.root.setLevel(level)
        os.chdir(self.d)
        text = r.out + ("".join(shown) if argv[0] == "show" and r.code == 0 else "")
        for i, n in sorted(enumerate(names), key=lambda x: -len(x[1])):
            if n != ".":
                text = text.replace(n.rstrip("/"), "<%d>" % i)
            else:
                text = re.sub(r"(?m)(?:^|(?<=[\s\['\"]))\.(?=[\s\]'\"/]|$)", "<%d>" % i, text)
        text = re.sub(r"(<\d>)/+(?=['\"\]\s]|$)", r"\1", text.replace(self.d, "<top>")).replace(">//", ">/")
        text = "\n".join(sorted(text.split("\n")))
        self.out.append([script + " " + (argv[0] if argv else ""), r.code, type(r.exc).__name__, text, {p: b for p, b in read_tree(self.path("")).items() if "src" not in p}, str(r)])
        check(status is None or r.code == status, "expected status %s: %s", status, r)
        return r


def run_tools(case, d, is_plain):
    t = Tools(case, d, is_plain)
    os.chdir(d)
    hist, (id1, id2) = case["hist"], case["ids"]
    for i, tree in enumerate(hist):
        write_tree(t.path("src%d" % i), gen.tree_bytes(tree))
        os.makedirs(t.path("src%d" % i), exist_ok=True)
        write_tree(t.path("srcall/v%d" % (i + 1)), gen.tree_bytes(tree))
        os.makedirs(t.path("srcall/v%d" % (i + 1)), exist_ok=True)
    when = "--created=2020-01-02T03:04:05Z"
    obj, root, script = "ThisObject", "ThisRoot", "ocfl-object.py"
    s, o = t.name("src0", url=True, here=True), t.name(obj, url=True)
    if s in (".", "src0"):
        o = t.path(obj)
    t.run(script, "create", "--objdir=" + o, "--srcdir=" + s, "--id=" + id1, "--digest=" + case["algs"][0], when, names=[o, s], status=0)
    o, s = t.name(obj, url=True), t.name("src1", url=True)
    t.run(script, "update", "--objdir=" + o, "--srcdir=" + s, "--digest=" + case["algs"][1], when, "--message=m", "--name=n", "--address=mailto:a@b", names=[o, s], status=0)
    o = t.name(obj, url=True, here=True)
    t.run(script, "show", "--objdir=" + o, names=[o], status=0)
    o = t.name(obj, url=True, here=True)
    t.run(script, "validate", "--objdir=" + o, names=[o], status=0)
    o = t.name(obj, url=True)
    x = t.name("ThatOut")
    t.run(script, "extract", "--objdir=" + o, "--objver=v1", "--dstdir=" + x, names=[o, x], status=0)
    o, x = t.name(obj, url=True), t.name("ThatOut")
    t.run(script, "extract", "--objdir=" + o, "--objver=v2", "--dstdir=" + x, names=[o, x])
    o = t.name(obj, url=True)
    x = t.name("ThatBag")
    t.run(script, "extract", "--objdir=" + o, "--objver=head", "--dstbag=" + x, "--set-bagging-date", names=[o, x])
    if os.path.isdir(t.path("ThatBag")) and t.out[-1][1] == 0:
        x = t.name("ThatBag", here=True)
        o = t.name("BagObject", url=True) if x != "." else t.path("BagObject")
        t.run(script, "create", "--objdir=" + o, "--srcbag=" + x, names=[o, x])
    md = t.name(obj + "/inventory.json")
    s, o = t.name("srcall", url=True), t.name("BuiltObject", url=True)
    t.run(script, "build", "--objdir=" + o, "--srcdir=" + s, "--id=" + id2, *(["--metadata=" + md] if len(hist) == 2 else []), names=[o, s]) if len(hist) == 2 else None
    if case["damage"]:
        cands = sorted(p for p in read_tree(t.path(obj)) if "/content/" in p) if case["damage"] == "content" else [p for p in read_tree(t.path(obj)) if p.startswith("inventory.json.")]
        if cands:
            with open(t.path(obj + "/" + cands[0]), "ab") as fh:
                fh.write(b"x")
    for what in (obj, obj + "/inventory.json", obj + "/v1/inventory.json", "ThatOut"):
        x = t.name(what, url=what != obj + "/inventory.json" and what != obj + "/v1/inventory.json", here=True)
        t.run("ocfl-validate.py", "--", x, names=[x])
    x = t.name(obj if case["prior"] else obj + "/inventory.json", here=True)
    t.run("ocfl-sidecar.py", "--", x, names=[x])
    o = t.name(obj, url=True, here=True)
    t.run(script, "validate", "--objdir=" + o, names=[o])

    def root_args(x):
        return ([], {"OCFL_ROOT": x}) if case["env"] else (["--root=" + x], None)
    script = "ocfl-root.py"
    x = t.name(root, url=True)
    args, env = root_args(x)
    t.run(script, "create", *args, *(["--layout=" + case["layout"]] if case["layout"] else []), names=[x], env=env, status=0)
    for what in (obj, "BuiltObject", obj):
        x, o = t.name(root, url=True), t.name(what, url=True, here=True)
        if o == "." or "/" not in o:
            x = t.path(root)
        args, env = root_args(x)
        t.run(script, "add", *args, "--src=" + o, names=[x, o], env=env)

    def look(name):
        for cmd in ("list", "validate", "validate+", "path", "pathq", "show", "validate-object"):
            x = name()
            args, env = root_args(x)
            more = ["--validate-objects", "--check-digests"] if cmd == "validate+" else ["-q"] if cmd == "pathq" else []
            if cmd in ("path", "pathq", "show", "validate-object"):
                more.append("--id=" + id1)
            t.run(script, cmd.strip("+q"), *args, *(["--layout=" + case["layout"]] if case["layout"] and cmd in ("path", "pathq", "show", "validate-object") else []), *more, names=[x], env=env)
    look(lambda: t.name(root, url=True, here=True))
    x = t.name(root, url=True, here=True)
    t.run("ocfl-validate.py", "--", x, names=[x])
    n = len(t.out)
    tree = read_tree(t.path(root))
    z = Place(d, t.place, root, "zip")
    z.put(tree)
    look(z.name)
    zipped = t.out[n:]
    return t.out[:n], zipped, t.out[n - 8:n - 1]


def tools_part(case, ctx):
    a, az, ad = run_tools(case, os.path.join(ctx.dir(), "one"), True)
    b, bz, bd = run_tools(case, os.path.join(ctx.dir(), "two"), False)
    for x, y in zip(a, b):
        check(x[1:4] == y[1:4], "%s: in other names %s; text, sorted:\n%s\nelsewhere:\n%s", x[5], y[5], y[3], x[3])
        check(x[4] == y[4], "%s leaves other files: %s", y[5], diff_trees(x[4], y[4], "elsewhere", "here"))
        ctx.event("%s: %s" % (x[0], x[1]))
    for x, y in list(zip(ad, az)) + list(zip(bd, bz)):
        check(x[1:4] == y[1:4], "%s: as a zip file %s; text, sorted:\n%s\nelsewhere:\n%s", x[5], y[5], y[3], x[3])
    ctx.nontrivial(case["place"] != "d" or any(h != "abs" for h in case["hows"]))


PARTS = [Part("objects", object_cases, objects_part, quick=1500, thorough=20000, rule="at least three operations done, not only with plain paths"),
         Part("roots", root_cases, roots_part, quick=1200, thorough=15000, rule="at least one object added, not only with plain paths"),
         Part("tools", tool_cases, tools_part, quick=200, thorough=3000, rule="not only plain paths")]
