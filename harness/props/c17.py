"""C17: a storage root holds exactly the objects added to it, each found by its identifier."""
import os

import ocfl
from hypothesis import strategies as st

import layouts
import objgen
from core import Part, Violation, attempt, check, read_tree

NAMES = [layouts.N0002, layouts.N0003, layouts.N0003, layouts.QUOTED, layouts.TUPLE, layouts.TUPLE, layouts.UUID]
RESERVED = ["extensions", "0=ocfl_1.0", "0=ocfl_1.1", "0=x", "ocfl_layout.json", "0=ocfl_object_1.0", "ocfl_1.1.txt"]

NEAR = ["extensions-2", "extensions2", "extensions.d", "Extensions", "xextensions", "extension", "ocfl_layout.json2", "ocfl_layout.jso", "xocfl_layout.json",
        "00=x", "0-ocfl_1.1", "1=ocfl_1.1", "ocfl_1.1", ".0=ocfl_1.1", "logs", ".x", "inventory.json", "content", "v1", "lost+found", "CVS", "tmp", "ocfl_layout.json.bak", "x.tmp", "~x", "x~", "#x#", "objects"]


def good_id(s):
    return s != "" and "\0" not in s


@st.composite
def cases(draw):
    name = draw(st.sampled_from(NAMES))
    params = draw(layouts.params_for(name))
    n = draw(st.integers(1, 5))
    near = draw(st.integers(0, 3)) == 0
    src = layouts.ids_for(name, params).filter(good_id)
    if name == layouts.N0002:
        src = st.one_of(src, *[src.map(lambda s: s.replace("/", "-"))] * 3)
    ids = draw(st.lists(src, min_size=n, max_size=n))
    if near and name != layouts.UUID:
        ids[0] = draw(st.sampled_from(NEAR))
    for i in range(1, n):
        k = draw(st.integers(0, 5))
        if k == 0:
            ids[i] = ids[draw(st.integers(0, i - 1))]
        elif k == 1:
            ids[i] = ids[i - 1] * 2
        elif k == 2:
            ids[i] = ids[i - 1] + draw(st.sampled_from(["x", "/x", "/v1/content", "ab"]))
        elif k == 3 and draw(st.booleans()):
            ids[i] = draw(st.sampled_from(RESERVED))
        elif k == 3:
            ids[i] = draw(st.sampled_from(NEAR))
        elif k == 4 and name == layouts.TUPLE:
            b = "abcdef"[:(params or layouts.DEFAULTS[name])["tupleSize"]]
            pair = draw(st.permutations([b, draw(st.sampled_from([b * 2, b * 2 + "x", b * 3]))]))
            ids[i - 1], ids[i] = pair
    objs = []
    spec = draw(st.sampled_from(["1.0", "1.1", "1.1", "1.1", None]))
    for i in range(n):
        o = draw(objgen.cases(max_versions=3, plain=draw(st.booleans())))
        o["id"] = ids[i]
        if spec == "1.0" and draw(st.integers(0, 3)):
            o["spec"] = "1.0"
            o["vspec"] = ["1.0"] * len(o["vspec"])
        objs.append(o)
    return {"name": name, "alias": draw(st.sampled_from(layouts.ALIASES[name])), "params": params,
            "spec": spec, "objs": objs, "ext": draw(st.sampled_from([None, None, "extensions", "extensions/0001-digest-algorithms", "extensions/initial"])),
            "reuse": draw(st.booleans()), "bad": draw(st.lists(st.sampled_from([None] * 16 + ["unreadable", "noinventory", "badinventory", "missing", "notjson", "nodigest"]),
                                                          min_size=n, max_size=n)),
            "look": draw(st.lists(st.sampled_from(["list", "validate", "path", "none"]), min_size=n, max_size=n)),
            "slash": draw(st.sampled_from(["", "", "/"]))}


def files(tree):
    return {p: b for p, b in tree.items() if b is not None}


def spoil(objdir, how):
    """Make an object that cannot be added; returns False if it can be after all."""
    inv = os.path.join(objdir, "inventory.json")
    if how == "missing":
        import core
        core.rmtree(objdir)
    elif how == "noinventory":
        os.remove(inv)
    elif how == "notjson":
        with open(inv, "wb") as fh:
            fh.write(b"{\xff")
    elif how == "badinventory":
        with open(inv, "wb") as fh:
            fh.write(b'{"id": "x"}')
    elif how == "nodigest":
        with open(inv, "wb") as fh:
            fh.write(b"[]")
    elif how == "unreadable":
        content = sorted(os.path.join(dp, f) for dp, _, fs in os.walk(objdir) for f in fs if f != "inventory.json")
        os.chmod(content[len(content) // 2], 0)
        return not os.access(content[len(content) // 2], os.R_OK)
    return True


def history(case, ctx):
    d = ctx.dir()
    root = os.path.join(d, "root")
    name, params = case["name"], case["params"]
    import json
    store = ocfl.StorageRoot(root=root + case["slash"], layout_name=case["alias"])
    store.initialize(spec_version=case["spec"], layout_params=None if params is None else json.dumps(params))
    spec = case["spec"] or "1.1"
    model = {}       # path -> (identifier, files)
    if case.get("ext"):
        os.makedirs(os.path.join(root, case["ext"]), exist_ok=True)
    base = read_tree(root, dirs=True)
    check(base.get("0=ocfl_" + spec) == ("ocfl_%s\n" % spec).encode(), "root declaration missing from %s", sorted(base))
    added = refused = 0
    for i, ocase in enumerate(case["objs"]):
        src = os.path.join(d, "src%d" % i)
        tree = objgen.make(ocase)
        empty_vdir = any(not any(p.startswith(objgen.vdir(ocase, k) + "/") for p in files(tree)) for k in range(len(ocase["hist"])))
        if empty_vdir:
            # directories with nothing in them are documented not to be copied
            ocase = dict(ocase, noinv=[False] * len(ocase["hist"]))
            tree = objgen.make(ocase)
        objgen.write(src, tree)
        bad = case["bad"][i]
        if bad is not None and not spoil(src, bad):
            bad = None
            os.chmod(src, 0o755)
            continue
        before = read_tree(root, dirs=True)
        ident = ocase["id"]
        try:
            path = layouts.path(name, ident, params)
        except layouts.Unusable:
            path = None
        why = None
        if path is None:
            why = "unusable identifier"
        elif bad is not None:
            why = bad
        elif ocase["spec"] > spec:
            why = "higher specification version"
        elif path.split("/")[0] == "extensions" or path.split("/")[0].startswith("0=") or path == "ocfl_layout.json":
            why = "reserved path"
        elif path in model:
            why = "already there"
        elif any(p.startswith(path + "/") for p in model):
            why = "directory of other objects"
        elif any(path.startswith(p + "/") for p in model):
            why = "inside other object"
        toolong = path is not None and any(len(s.encode("utf-8")) > 255 for s in path.split("/"))
        if not case["reuse"]:
            store = ocfl.StorageRoot(root=root)
        srcbefore = None if bad in ("missing", "unreadable") else read_tree(src, dirs=True)
        got = attempt(store.add, src, expected=(ocfl.StorageRootException, ocfl.ObjectException))
        after = read_tree(root, dirs=True)
        if toolong and why is None:
            why = "name too long for the file system"
        if why is not None:
            check(not got, "object %r with %s was added: %r", ident, why, got)
            check(after == before, "refused object (%s) changed the storage root: %s", why, sorted(set(after) ^ set(before))[:5])
            ctx.event("refused: " + why)
            refused += 1
            continue
        check(bool(got), "object %r at %r not added: %r", ident, path, got)
        check(tuple(got) == (ident, path), "add returned %r, expected %r", got, (ident, path))
        check(read_tree(src, dirs=True) == srcbefore, "adding changed the source")
        added += 1
        here = {p[len(path) + 1:]: b for p, b in after.items() if p.startswith(path + "/")}
        check(files(here) == files(tree), "object at %r differs from what was added", path)
        rest = {p: b for p, b in after.items() if not p.startswith(path + "/") and p != path}
        check(rest == before, "adding %r changed something else in the root", path)
        model[path] = (ident, files(tree))
        # Look at the root in between
        look = case["look"][i]
        s = store if case["reuse"] else ocfl.StorageRoot(root=root)
        if look == "list":
            check(sorted(s.list_objects()) == sorted((p, m[0]) for p, m in model.items()), "list_objects")
        elif look == "validate":
            check(s.validate(log_errors=False), "root with valid objects is not valid: %s %s", s.log.status_str(), s.errors)
        elif look == "path":
            for p, m in model.items():
                check(s.object_path(m[0]) == p, "object_path of %r", m[0])
    # In the end
    s = ocfl.StorageRoot(root=root)
    got = list(s.list_objects())
    check(sorted(got) == sorted((p, m[0]) for p, m in model.items()), "list_objects gives %r, expected %r", got, sorted(model))
    check(s.num_objects == len(model), "num_objects %d, expected %d", s.num_objects, len(model))
    s = ocfl.StorageRoot(root=root)
    ok = s.validate(log_errors=False)
    check(ok, "root with valid objects is not valid: %s %s", s.log.status_str(), s.errors)
    check((s.num_objects, s.good_objects) == (len(model), len(model)), "counts %d, %d of %d", s.num_objects, s.good_objects, len(model))
    check(s.spec_version == spec, "spec_version %s", s.spec_version)
    for p, m in model.items():
        check(ocfl.StorageRoot(root=root).object_path(m[0]) == p, "object_path of %r", m[0])
        here = {q[len(p) + 1:]: b for q, b in read_tree(root).items() if q.startswith(p + "/")}
        check(here == m[1], "object %r changed", m[0])
        passed, v = ocfl.Object().validate(objdir=os.path.join(root, p))
        check(passed, "object %r in the root is not valid: %s", m[0], v)
    ctx.event(name)
    ctx.nontrivial(added >= 2)


PARTS = [Part("history", cases, history, 2500)]
