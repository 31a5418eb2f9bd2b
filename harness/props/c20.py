"""C20: validating a storage root finds everything wrong with its hierarchy and its objects, and nothing else."""
import os
import zipfile

import ocfl
from hypothesis import strategies as st

import layouts
import objgen
from core import Part, attempt, check, read_tree

DECL = ["good"] * 14 + ["none", "two", "unknown", "suffix", "other", "content", "empty", "badutf8", "dir", "many", "nonl"]
DIRS = ["a", "b", "b/c", "ab/cd/ef", "ab/cd", "x y", "é", "v1", "logs", ".hid", "extensions/x", "obj/extensions", "0=ocfl_1.0x", "z/extensions/y", "extensions2", "extensions-old/x", "xextensions", "Extensions/x", "ocfl_layout.json.d"]
KIND = ["obj"] * 10 + ["badobj"] * 3 + ["noinv", "twodecl", "unknownver", "suffixdecl", "otherdecl", "nodecl", "emptydir", "emptydeep", "decldir", "higher", "manydecl", "justdecl", "twojust", "higherjust"]
EXT = [None, None, None, "registered", "unregistered", "file", "empty", "mixed", "onlyfile"]


@st.composite
def cases(draw):
    items = []
    n = draw(st.integers(0, 4))
    for i in range(n):
        kind = draw(st.sampled_from(KIND))
        o = draw(objgen.cases(max_versions=2, plain=True))
        o["id"] = "info:%d" % i
        o["logs"] = None
        o["valg"] = [o["alg"]] * len(o["valg"])    # so that there are no warnings
        items.append([draw(st.sampled_from(DIRS)) + draw(st.sampled_from(["", "", "/o%d" % i])), kind, o])
    return {"decl": draw(st.sampled_from(DECL)), "spec": draw(st.sampled_from(["1.0", "1.1", "1.1"])), "ext": draw(st.sampled_from(EXT)),
            "files": draw(st.lists(st.sampled_from(["README", "ocfl_1.0.txt", "inventory.json", "extensions.txt", "1=x"]), max_size=2, unique=True)),
            "items": items, "objects": draw(st.sampled_from([True, True, True, False])), "digests": draw(st.sampled_from([True, True, False])),
            "max": draw(st.sampled_from([100, 100, 0, 1, 2])), "warn": draw(st.booleans()), "errs": draw(st.booleans()), "where": draw(st.sampled_from(["local", "local", "zip"]))}


def structure(case, tree):
    """Add the root declaration; returns the code of the error, if any."""
    spec, how = case["spec"], case["decl"]
    name, data, err = "0=ocfl_" + spec, ("ocfl_%s\n" % spec).encode(), None
    if how == "none":
        return "E069a"
    if how == "two":
        tree["0=ocfl_1.0"] = b"ocfl_1.0\n"
        tree["0=ocfl_1.1"] = b"ocfl_1.1\n"
        return "E069b"
    if how == "many":
        for i in range(15):
            tree["0=x%d" % i] = b""
        tree[name] = data
        return "E069b"
    if how in ("unknown", "suffix", "other"):
        tree["0=" + {"unknown": "ocfl_1.2", "suffix": "ocfl_%sx" % spec, "other": "ocfl"}[how]] = data
        return "E069c"
    if how == "dir":
        tree[name + "/x"] = b""
        return "E069e"
    tree[name] = {"good": data, "nonl": data.strip(), "content": b"ocfl_9.9\n", "empty": b"", "badutf8": b"ocfl_\xff\n"}[how]
    if how in ("content", "empty", "badutf8", "nonl"):
        err = "E069e"
    return err


def clash(path, places):
    segs = path.split("/")
    return any(path == p or p.startswith(path + "/") or path.startswith(p + "/") for p in places) or segs[0] == "extensions" or segs[0].startswith("0=ocfl_1.0x")


def build(case, where=None):
    """(tree, structural error, traversal codes, objects {path: (id or None, valid)}).

    With where, that list gets [code, strings that the message has] for each error.
    """
    tree = {}
    err = structure(case, tree)
    codes = {}
    objs = {}

    def add(code, *strings):
        codes[code] = codes.get(code, 0) + 1
        if where is not None:
            where.append([code, strings])
    for f in case["files"]:
        tree[f] = b"x"
    ext = case["ext"]
    warn = 0
    if ext in ("registered", "mixed"):
        tree["extensions/%s/config.json" % layouts.N0003] = b"{}"
    if ext in ("unregistered", "mixed"):
        tree["extensions/my-ext/x/y"] = b"{}"
        tree["extensions/0002/x"] = b"{}"
        warn = 2
    if ext in ("file", "mixed"):
        tree["extensions/f"] = b""
        tree["extensions/unreg/f"] = b""
        warn += 1
        add("E086", "f")
    if ext == "onlyfile":
        tree["extensions/0003"] = b""
        add("E086", "0003")
    if ext == "empty":
        tree["extensions"] = None
    places = []
    for path, kind, ocase in case["items"]:
        if clash(path, places):
            continue
        just = kind in ("twojust", "higherjust")        # nothing but the declarations
        kind = {"twojust": "twodecl", "higherjust": "higher"}.get(kind, kind)
        if case["spec"] == "1.0" and kind != "higher":
            ocase = dict(ocase, spec="1.0", vspec=["1.0"] * len(ocase["vspec"]))
        if kind == "higher" and case["spec"] == "1.1":
            kind, just = "obj", False
        if kind == "higher":
            ocase = dict(ocase, spec="1.1")
        places.append(path)
        obj = objgen.make(ocase)
        decl = "0=ocfl_object_" + ocase["spec"]
        if just:
            obj = {decl: obj[decl]}
        if kind in ("emptydir", "emptydeep"):
            path += "/d/e" if kind == "emptydeep" else ""
            tree[path] = None
            add("E073", path)
            continue
        if kind == "nodecl":
            del obj[decl]
            add("E072", path)
        elif kind == "twodecl":
            obj["0=ocfl_object_1.0"] = b"ocfl_object_1.0\n"
            obj["0=ocfl_object_1.1"] = b"ocfl_object_1.1\n"
            add("E003d", path)
        elif kind == "manydecl":
            for i in range(12):
                obj["0=%d" % i] = b""
            add("E003d", path)
        elif kind == "unknownver":
            del obj[decl]
            obj["0=ocfl_object_1.9"] = b"ocfl_object_1.9\n"
            add("E004a", path, "1.9")
        elif kind in ("suffixdecl", "otherdecl"):
            obj[{"suffixdecl": decl + "x", "otherdecl": "0=thing"}[kind]] = obj.pop(decl)
            add("E004b", path, {"suffixdecl": decl + "x", "otherdecl": "0=thing"}[kind])
        elif kind == "decldir":
            del obj[decl]
            obj[decl + "/x"] = b""
            add("E072", path)
        else:
            valid = True
            ident = ocase["id"]
            if kind == "badobj":
                obj["extra"] = b"not allowed"
                valid = False
            elif kind == "noinv":
                del obj["inventory.json"]
                valid, ident = False, "UNKNOWN-ID"
            elif kind == "justdecl":
                obj = {decl: obj[decl]}
                valid, ident = False, "UNKNOWN-ID"
            elif kind == "higher":
                add("E081", path, "1.1", "1.0")
                if just:
                    valid, ident = False, "UNKNOWN-ID"
            objs[path] = (ident, valid)
        for p, data in obj.items():
            tree[path + "/" + p] = data
    return tree, err, codes, objs, warn


def validate(case, ctx):
    d = ctx.dir()
    tree, err, codes, objs, warn = build(case)
    root = objgen.write(os.path.join(d, "root"), tree)
    where = root
    if case["where"] == "zip":
        z = os.path.join(d, "root.zip")
        with zipfile.ZipFile(z, "w") as zf:
            for p, data in tree.items():
                if data is None:
                    zf.writestr(p + "/", b"")
                else:
                    zf.writestr(p, data)
            if not tree:
                zf.writestr("x/", b"")
        if not tree:
            return
        where = "zip://" + z
    s = ocfl.StorageRoot(root=where)
    for time in ("first", "second"):
        ok = s.validate(validate_objects=case["objects"], check_digests=case["digests"], log_errors=case.get("errs", False), log_warnings=case["warn"], max_errors=case["max"])
        got = dict(s.log.codes)
        nwarn = got.pop("W901", 0)
        if err is not None:
            check(not ok and sorted(got) == [err], "%s validation: %s with %s, expected %s", time, ok, sorted(got), err)
            continue
        want_ok = not codes and (all(v for _, v in objs.values()) or not case["objects"])
        check(ok == want_ok, "%s validation of root is %s: codes %s, expected %s, objects %s", time, ok, sorted(got), sorted(codes), objs)
        check(sorted(got) == sorted(codes), "%s validation: codes %s, expected %s", time, sorted(got), sorted(codes))
        check(s.num_traversal_errors == sum(codes.values()), "%s validation: %d traversal errors, expected %d", time, s.num_traversal_errors, sum(codes.values()))
        check(bool(nwarn) == bool(warn), "W901 reported %s, expected %s", nwarn, warn)
        if case["objects"]:
            check(s.num_objects == len(objs), "%d objects checked, expected %d", s.num_objects, len(objs))
        if case["objects"]:
            good = sum(1 for _, v in objs.values() if v)
            check(s.good_objects == good, "%d good objects, expected %d", s.good_objects, good)
            bad = sorted(p for p, (_, v) in objs.items() if not v)
            named = sorted(e[0] for e in s.errors)
            if case["max"] == 100:
                check(named == bad, "objects reported %s, expected %s", s.errors, bad)
            else:
                check(len(named) <= case["max"] and set(named) <= set(bad) and len(named) == min(case["max"], len(bad)), "objects reported %s with max_errors %d", named, case["max"])
            check(all(e[1] for e in s.errors), "empty error report")
        else:
            check(s.errors == [], "errors of objects not validated")
    check(read_tree(root, dirs=True) == {p: b for p, b in tree.items()}, "validation changed the root")
    # Listing
    s = ocfl.StorageRoot(root=where)
    if err is not None:
        check(not attempt(lambda: list(s.list_objects()) or True, expected=(ocfl.StorageRootException,)), "list_objects of bad root")
    else:
        for _ in range(2):
            got = sorted(s.list_objects())
            check(got == sorted((p, i) for p, (i, _v) in objs.items()), "list_objects %s, expected %s", got, objs)
            check(s.num_objects == len(objs), "num_objects %d after listing %d", s.num_objects, len(objs))
    ctx.event("structure " + err if err else "hierarchy bad" if codes else "objects bad" if not all(v for _, v in objs.values()) else "good")
    for c in codes:
        ctx.event(c)
    ctx.nontrivial(err is None and len(objs) + len(codes) >= 2)


PARTS = [Part("validate", cases, validate, 5000)]
