"""C23: the Inventory and Version classes give and change exactly what the inventory says."""
import io
import json
import os

import fsspec
import ocfl
from hypothesis import strategies as st

import gen
import objgen
import ref
from core import Part, Raised, attempt, check
from ocfl.inventory import InventoryException
from ocfl.object_utils import (ObjectException, first_version_directory, make_unused_filepath,
                               next_version_directory, parse_version_directory, remove_first_directory)

# Inventory types and the specification version they stand for
TYPES = [["https://ocfl.io/1.0/spec/#inventory", "1.0"], ["https://ocfl.io/1.1/spec/#inventory", "1.1"], ["https://ocfl.io/1.2/spec/#inventory", "1.2"],
         ["https://ocfl.io/1.1/spec/#inventory ", None], ["https://ocfl.io/1.1/spec/#inventory\n", None], [" https://ocfl.io/1.1/spec/#inventory", None],
         ["https://ocfl.io/11/spec/#inventory", None], ["https://ocfl.io/1x1/spec/#inventory", None], ["https://ocfl-io/1.1/spec/#inventory", None],
         ["http://ocfl.io/1.1/spec/#inventory", None], ["https://ocfl.io/1.1/spec/", None], ["https://ocfl.io/1.1/spec/#inventory2", None], ["", None]]
CONTENT = ["d%d" % i for i in range(6)]


# ---------------------------------------------------------------- reading

@st.composite
def view_cases(draw):
    o = draw(objgen.cases(max_versions=6))
    if draw(st.sampled_from([True, False, False, False])):
        # Enough versions that the order of names is not that of numbers
        o = draw(objgen.cases(max_versions=2))
        o["many"] = draw(st.integers(9, 12))
    return {"obj": o, "drop": draw(st.lists(st.sampled_from(["id", "type", "digestAlgorithm", "head", "contentDirectory", "manifest", "versions", "fixity"]), max_size=2, unique=True)),
            "how": draw(st.sampled_from(["dict", "file", "fs", "copy"])), "type": draw(st.sampled_from(TYPES))}


def expand(o):
    """More versions by repeating the history."""
    n = o.get("many")
    if n:
        k = len(o["hist"])
        for key in ("hist", "metas", "reuse", "dup", "hexcase", "fixity", "noinv", "emptycd", "xdir"):
            o[key] = [o[key][i % k] for i in range(n)]
        o["valg"] = [o["alg"]] * (n - 1)
        o["vspec"] = [o["spec"]] * (n - 1)
    return o


def number(v):
    return int(v[1:])


def view(case, ctx):
    d = ctx.dir()
    o = expand(json.loads(json.dumps(case["obj"])))
    placed = objgen.layout_content(o)
    data = objgen.inventory(o, len(o["hist"]) - 1, placed)
    for key in case["drop"]:
        data.pop(key, None)
    snap = json.dumps(data)
    how = case["how"]
    if how == "dict":
        inv = ocfl.Inventory(data)
    elif how == "copy":
        inv = ocfl.Inventory(ocfl.Inventory(data))
    else:
        with open(os.path.join(d, "inv é.json"), "wb") as fh:
            fh.write(objgen.dump(o, data))
        if how == "file":
            inv = ocfl.Inventory(filepath=os.path.join(d, "inv é.json"))
        else:
            inv = ocfl.Inventory(filepath="inv é.json", fsw=ocfl.fsw.fsw_openfs(d))
    check(inv.data == data, "data is not what was supplied")
    typ = data.get("type")
    check(inv.spec_version == (typ.split("/")[3] if typ else None), "spec_version %r of %r", inv.spec_version, typ)
    for x in ([], "x", 1, b"{}", True, 0, [data], json.dumps(data)):
        check(isinstance(attempt(ocfl.Inventory, x, expected=(InventoryException,)), Raised), "inventory made from %r", type(x))
    check(ocfl.Inventory({"type": case["type"][0]}).spec_version == case["type"][1], "spec_version %r of type %r",
          ocfl.Inventory({"type": case["type"][0]}).spec_version, case["type"][0])
    inv1 = ocfl.Inventory()
    inv1.spec_version = "1.0"
    check(inv1.data == {"type": TYPES[0][0]}, "type for 1.0: %r", inv1.data)
    for attr, key in (("id", "id"), ("digest_algorithm", "digestAlgorithm"), ("head", "head"), ("content_directory", "contentDirectory")):
        check(getattr(inv, attr) == data.get(key), "%s is %r, expected %r", attr, getattr(inv, attr), data.get(key))
    check(inv.content_directory_to_use == data.get("contentDirectory", "content"), "content_directory_to_use %r", inv.content_directory_to_use)
    man = data.get("manifest", {})
    check(inv.manifest == man, "manifest")
    check(inv.fixity == data.get("fixity", {}), "fixity")
    content = {p: dg for dg, ps in man.items() for p in ps}
    check(inv.content == content, "content %r", inv.content)
    check(sorted(inv.content_paths) == sorted(content), "content_paths %r", inv.content_paths)
    for p, dg in content.items():
        check(inv.digest_for_content_path(p) == dg, "digest of %s", p)
    for dg, ps in man.items():
        check(inv.content_paths_for_digest(dg) == ps and inv.content_path_for_digest(dg) in ps, "content paths of %s", dg)
    for x in ("nope", "", "v1", "f"):
        check(inv.digest_for_content_path(x) is None and inv.content_path_for_digest(x) is None and inv.content_paths_for_digest(x) == [], "unknown %r found", x)
    vs = data.get("versions", {})
    order = sorted(vs, key=number)
    check(inv.version_directories == order, "version_directories %r, expected %r", inv.version_directories, order)
    check(inv.version_numbers == list(range(1, len(order) + 1)), "version_numbers %r", inv.version_numbers)
    check([v.vdir for v in inv.versions()] == order, "versions() in order %r", [v.vdir for v in inv.versions()])
    last = {}
    for v in order:
        blk = vs[v]
        ver = inv.version(v)
        check(ver.number == number(v) and ver.vdir == v, "number of %s is %s", v, ver.number)
        user = blk.get("user", {})
        check((ver.created, ver.message, ver.user_name, ver.user_address) == (blk.get("created"), blk.get("message"), user.get("name"), user.get("address")),
              "metadata of %s: %r", v, (ver.created, ver.message, ver.user_name, ver.user_address))
        md = ocfl.VersionMetadata(inventory=inv, version=v)
        check((md.id, md.version, md.created, md.message, md.name, md.address) ==
              (data.get("id"), v, blk.get("created"), blk.get("message"), user.get("name"), user.get("address")), "VersionMetadata of %s", v)
        back = {k: x for k, x in md.as_dict().items()}
        check(back == {k: x for k, x in blk.items() if k != "state"}, "as_dict of metadata of %s: %r", v, back)
        lps = {p: dg for dg, ps in blk["state"].items() for p in ps}
        check(ver.state == blk["state"] and sorted(ver.logical_paths) == sorted(lps), "state of %s", v)
        for p, dg in lps.items():
            check(ver.digest_for_logical_path(p) == dg, "digest of %s in %s", p, v)
            norm = {k: x for k, x in man.items()}
            if dg in norm:
                check(ver.content_path_for_logical_path(p) in norm[dg], "content path of %s in %s", p, v)
            last[p] = v
        check(ver.digest_for_logical_path("n/o/p/e") is None and ver.content_path_for_logical_path("n/o/p/e") is None, "unknown path found in %s", v)
    if data.get("head") in vs:
        check(inv.current_version.vdir == data["head"], "current version %s", inv.current_version.vdir)
        md = ocfl.VersionMetadata(inventory=data)
        check(md.version == data["head"] and md.created == vs[data["head"]].get("created"), "metadata of head")
        check(isinstance(attempt(lambda: ocfl.VersionMetadata(inventory=inv, version="v99"), expected=(InventoryException,)), Raised), "metadata of unknown version")
    for p, v in last.items():
        got = inv.find_logical_path(p)
        check(got[0] == v, "last version with %s is %s, find_logical_path gives %r", p, v, got)
        dg = inv.version(v).digest_for_logical_path(p)
        check(got[1] == (man[dg][0] if dg in man else None), "content path of %s: %r", p, got)
    check(inv.find_logical_path("n/o/p/e") == (None, None), "unknown logical path found")
    # JSON and back
    check(json.loads(inv.as_json()) == data, "as_json does not give the data")
    buf = io.StringIO()
    inv.write_json(buf)
    check(buf.getvalue() == inv.as_json(), "write_json differs from as_json")
    shuffled = json.loads(json.dumps(data))
    shuffled = dict(reversed(list(shuffled.items())))
    check(ocfl.Inventory(shuffled).as_json() == inv.as_json(), "as_json depends on order of keys")
    # Normalized digests
    norm = ocfl.Inventory(data)
    norm.normalize_digests(data.get("digestAlgorithm") or "sha512")
    check(json.loads(json.dumps(norm.manifest)) == {dg.lower(): ps for dg, ps in man.items()}, "normalized manifest")
    for v in order:
        check(norm.version(v).state == {dg.lower(): ps for dg, ps in vs[v]["state"].items()}, "normalized state of %s", v)
    # Nothing above altered the data, and a copy is independent
    check(json.dumps(data) == snap, "data supplied was changed")
    if how in ("dict", "copy"):
        inv.id = "changed"
        for v in order:
            inv.version(v).message = "changed"
            inv.version(v).state.clear()
        inv.manifest.clear()
        check(json.dumps(data) == snap, "changing an inventory changed the data it was made from")
    ctx.event(how)
    ctx.nontrivial(len(order) > 1 and bool(man))


# ---------------------------------------------------------------- changing

@st.composite
def edit_cases(draw):
    names = draw(st.lists(gen.paths(maxdepth=2), min_size=2, max_size=5, unique=True))
    nm = st.sampled_from(names)
    dg = st.sampled_from(CONTENT)
    op = st.one_of(
        st.tuples(st.just("version"), st.sampled_from(["empty", "carry", "meta", "reuse"])),
        st.tuples(st.just("add"), nm, dg, st.booleans(), st.one_of(st.none(), nm)),
        st.tuples(st.just("add"), nm, dg, st.booleans(), st.none()),
        st.tuples(st.just("add"), nm, dg, st.just(True), st.none()),
        st.tuples(st.just("delete"), nm),
        st.tuples(st.just("delete"), nm),
        st.tuples(st.just("manifest"), dg, nm),
        st.tuples(st.just("meta"), st.sampled_from(["created", "message", "user_name", "user_address"]), st.sampled_from(gen.MESSAGES)),
        st.tuples(st.just("fixity"), st.sampled_from(["md5", "sha1"]), dg, nm))
    return {"pad": draw(st.sampled_from([None, None, 2, 4, 5])), "cd": draw(st.sampled_from([None, "data", "v1", "content"])),
            "ops": [list(x) for x in draw(st.lists(op, min_size=2, max_size=18))]}


def edit(case, ctx):
    inv = ocfl.Inventory()
    inv.init_manifest_and_versions()
    cd = case["cd"] or "content"
    if case["cd"]:
        inv.content_directory = case["cd"]
    model = {"manifest": {}, "versions": [], "fixity": {}}

    def vname(i):
        return "v%0*d" % (case["pad"], i) if case["pad"] else "v%d" % i

    shared = {"message": "shared", "user": {"name": "S"}}
    v = inv.add_version(zero_padded_width=case["pad"])
    model["versions"].append({"state": {}, "meta": {}})
    changes = 0
    for op in case["ops"]:
        cur = model["versions"][-1]
        n = len(model["versions"])
        if op[0] == "version":
            if op[1] == "empty":
                v = inv.add_version(zero_padded_width=3)
                new = {"state": {}, "meta": {}}
            elif op[1] == "carry":
                v = inv.add_version(state=inv.current_version.state)
                new = {"state": dict(cur["state"]), "meta": {}}
            elif op[1] == "meta":
                v = inv.add_version(metadata=ocfl.VersionMetadata(created="2020-01-01T00:00:00Z", message="m"), state={})
                new = {"state": {}, "meta": {"created": "2020-01-01T00:00:00Z", "message": "m"}}
            else:
                v = inv.add_version(metadata=shared, state={})
                new = {"state": {}, "meta": {"message": "shared", "user_name": "S"}}
            model["versions"].append(new)
        elif op[0] == "add":
            _, lp, dg, dedupe, cpath = op
            want = None
            if lp in cur["state"]:
                res = attempt(lambda: v.add_file(digest=dg, logical_path=lp, content_path=cpath, dedupe=dedupe), expected=(InventoryException,))
                check(isinstance(res, Raised), "path %s added twice", lp)
                ctx.event("refused")
            else:
                res = v.add_file(digest=dg, logical_path=lp, content_path=cpath, dedupe=dedupe)
                cur["state"][lp] = dg
                if not dedupe or not any(x == dg for x in model["manifest"].values()):
                    base = "%s/%s/%s" % (vname(n), cd, lp if cpath is None else cpath)
                    want, k = base, 1
                    while want in model["manifest"]:
                        k += 1
                        want = "%s__%d" % (base, k)
                    model["manifest"][want] = dg
                check(res == want, "add_file returned %r, expected %r", res, want)
                changes += 1
        elif op[0] == "delete":
            lp = op[1]
            if lp not in cur["state"]:
                res = attempt(v.delete_logical_path, lp, expected=(InventoryException,))
                check(isinstance(res, Raised), "path %s that is not there was deleted", lp)
                ctx.event("refused")
            else:
                dg = cur["state"].pop(lp)
                check(v.delete_logical_path(lp) == dg, "delete_logical_path did not return the digest")
                if dg not in cur["state"].values():
                    model["manifest"] = {p: x for p, x in model["manifest"].items() if x != dg or not p.startswith(vname(n) + "/")}
                changes += 1
        elif op[0] == "manifest":
            p = "%s/%s/%s" % (vname(n), cd, op[2])
            if p in model["manifest"]:
                check(isinstance(attempt(lambda: inv.add_file_to_manifest(digest=op[1], content_path=p), expected=(InventoryException,)), Raised),
                      "content path %s added twice", p)
                ctx.event("refused")
            else:
                inv.add_file_to_manifest(digest=op[1], content_path=p)
                model["manifest"][p] = op[1]
        elif op[0] == "meta":
            setattr(v, op[1], op[2])
            cur["meta"][op[1]] = op[2]
        else:
            _, alg, dg, p = op
            if alg not in model["fixity"]:
                inv.add_fixity_type(alg)
                model["fixity"][alg] = {}
            inv.add_fixity_data(alg, dg, p)
            model["fixity"][alg].setdefault(dg, []).append(p)
        # The inventory is as the model has it
        n = len(model["versions"])
        check(inv.head == vname(n) and inv.current_version.vdir == vname(n) == v.vdir, "head %s, expected %s", inv.head, vname(n))
        check(inv.version_directories == [vname(i + 1) for i in range(n)], "version directories %r", inv.version_directories)
        check(inv.content == model["manifest"], "manifest %r, expected %r after %r", inv.content, model["manifest"], op)
        check(all(inv.manifest.values()), "manifest entry without paths")
        for i, m in enumerate(model["versions"]):
            ver = inv.version(vname(i + 1))
            got = {p: dg for dg, ps in ver.state.items() for p in ps}
            check(got == m["state"] and len(ver.logical_paths) == len(got), "state of v%d %r, expected %r after %r", i + 1, got, m["state"], op)
            check(all(ver.state.values()), "state entry without paths")
            for a in ("created", "message", "user_name", "user_address"):
                if a == "created" and a not in m["meta"]:
                    continue
                check(getattr(ver, a) == m["meta"].get(a), "%s of v%d is %r, expected %r after %r", a, i + 1, getattr(ver, a), m["meta"].get(a), op)
            for p, dg in m["state"].items():
                cp = ver.content_path_for_logical_path(p)
                if dg in model["manifest"].values():
                    check(model["manifest"].get(cp) == dg, "content path of %s in v%d is %r", p, i + 1, cp)
        check(inv.fixity == model["fixity"], "fixity %r", inv.fixity)
        check(shared == {"message": "shared", "user": {"name": "S"}}, "metadata supplied was changed: %r", shared)
    check(json.loads(inv.as_json()) == inv.data, "as_json")
    ctx.event("versions", len(model["versions"]))
    ctx.nontrivial(changes > 2 and len(model["versions"]) > 1)


# ---------------------------------------------------------------- names

@st.composite
def name_cases(draw):
    return {"n": draw(st.one_of(st.integers(1, 99998), st.sampled_from([1, 9, 10, 98, 99, 999, 9999, 9998, 8, 99998]))), "w": draw(st.integers(2, 5)),
            "bad": draw(st.one_of(st.sampled_from(["", "v", "v0", "v00", "v00000", "V1", "1", "v-1", "v+1", " v1", "v1 ", "v1\n", "v1.0", "v1v", "vv1", "v１", "v٣", "v_1", "v1_0",
                                                   "v000001", "v0x1", "version1", "v1/", "v1e1"]),
                                  st.text(alphabet="v0123456789 \n_٣x", max_size=6))),
            "width": draw(st.integers(-1, 8)), "path": draw(gen.paths(maxdepth=4)), "slash": draw(st.booleans()),
            "base": draw(gen.paths(maxdepth=2)), "used": draw(st.lists(st.integers(1, 6), max_size=6)), "sep": draw(st.sampled_from(["__", "-", "."]))}


def names(case, ctx):
    n, w = case["n"], case["w"]
    check(parse_version_directory("v%d" % n) == n, "parse v%d", n)
    check(next_version_directory("v%d" % n) == "v%d" % (n + 1), "after v%d: %s", n, next_version_directory("v%d" % n))
    z = n % (10 ** (w - 1))       # a number that fits the zero-padded width
    if z:
        p = "v%0*d" % (w, z)
        check(parse_version_directory(p) == z, "parse %s", p)
        res = attempt(next_version_directory, p, expected=(ObjectException,))
        if len(str(z + 1)) >= w:
            check(isinstance(res, Raised), "after %s: %s, which is no longer zero-padded", p, res)
            ctx.event("overflow")
        else:
            check(res == "v%0*d" % (w, z + 1), "after %s: %s", p, res)
    bad = case["bad"]
    good = bad[:1] == "v" and 1 <= len(bad) - 1 <= 5 and all(c in "0123456789" for c in bad[1:]) and int(bad[1:]) > 0
    res = attempt(parse_version_directory, bad, expected=(ObjectException,))
    check(isinstance(res, Raised) != good, "version directory %r: %r", bad, res)
    if not (bad[:1] == "v" and bad[1:].isascii() and bad[1:].isdigit()):
        check(isinstance(attempt(next_version_directory, bad, expected=(ObjectException,)), Raised), "next after %r", bad)
    width = case["width"]
    res = attempt(first_version_directory, width, expected=(ObjectException,))
    check(res == "v%0*d" % (width, 1) if 2 <= width <= 5 else isinstance(res, Raised), "first version directory of width %d: %r", width, res)
    check(first_version_directory() == "v1", "first version directory")
    path = case["path"]
    got = remove_first_directory(path + ("/" if case["slash"] else ""))
    check(got == "/".join(path.split("/")[1:]), "remove_first_directory(%r): %r", path, got)
    base, sep = case["base"], case["sep"]
    used = {base if k == 1 else "%s%s%d" % (base, sep, k) for k in case["used"]}
    got = make_unused_filepath(base, used, sep)
    check(got not in used, "make_unused_filepath gave used path")
    k = 1
    while k in case["used"]:
        k += 1
    check(got == (base if k == 1 else "%s%s%d" % (base, sep, k)), "make_unused_filepath: %r", got)
    ctx.nontrivial(not good or bool(case["used"]))


PARTS = [Part("view", view_cases, view, 3000), Part("edit", edit_cases, edit, 6000), Part("names", name_cases, names, 8000)]
