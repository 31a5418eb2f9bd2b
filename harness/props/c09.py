"""C09: reading an object changes nothing, and extraction writes only inside a new or empty destination."""
import json
import os

import ocfl
from hypothesis import strategies as st

import gen
import objects
import objgen
import ref
from core import Part, attempt, check, diff_trees, read_tree, write_tree


DESTS = ["new", "new/", "rel", "./rel", "rel/", "empty", "empty/", "relempty", "nested-missing", "file", "full", "full hidden", "full dir",
         "object", "inside object", "under file", "dotdot", "odd name"]


@st.composite
def cases(draw):
    hist = draw(gen.histories(max_versions=2, max_paths=4, big=False, long_from=2))
    return {"id": "info:x", "cfg": draw(gen.configs(lax=False, fixity=False)), "hist": hist, "metas": [draw(gen.metadata()) for _ in hist],
            "dst": draw(st.sampled_from(DESTS)), "r": draw(st.integers(0, 1000)), "one": draw(st.sampled_from([False, False, True])),
            "name": draw(gen.segments())}


def destination(case, ctx):
    d = ctx.dir()
    objdir, _ = objects.create_and_update(d, case["id"], case["cfg"], case["hist"], case["metas"])
    os.chdir(d)
    kind = case["dst"]
    write_tree(os.path.join(d, "full"), {"keep": b"precious"})
    write_tree(os.path.join(d, "full hidden"), {".keep": b"precious"})
    os.makedirs(os.path.join(d, "full dir", "sub"))
    write_tree(d, {"file": b"precious"})
    os.mkdir(os.path.join(d, "empty"))
    full = {"new": "/new", "new/": "/new/", "rel": "rel", "./rel": "./rel", "rel/": "rel/", "empty": "/empty", "empty/": "/empty/", "relempty": "empty",
            "nested-missing": "/no/such/dst", "file": "/file", "full": "/full", "full hidden": "/full hidden", "full dir": "/full dir",
            "object": "/obj", "inside object": "/obj/v1", "under file": "/file/dst", "dotdot": "/empty/../new", "odd name": "/" + case["name"]}[kind]
    dst = d + full if full.startswith("/") else full
    i = case["r"] % len(case["hist"])
    tree = gen.tree_bytes(case["hist"][i])
    v = "v%d" % (i + 1)
    before = read_tree(d, dirs=True)
    where = os.path.relpath(os.path.normpath(os.path.join(d, dst)), d)
    if kind == "odd name" and where in ("obj", "src-obj", "full", "full dir", "full hidden", "file"):
        return
    good = kind in ("new", "new/", "rel", "./rel", "rel/", "empty", "empty/", "relempty", "dotdot", "odd name")
    if case["one"]:
        if not tree:
            return
        lp = sorted(tree)[case["r"] // 7 % len(tree)]
        base = os.path.basename(lp)
        if kind in ("full", "full hidden", "full dir") and case["r"] // 11 % 2:
            # The very name is taken
            write_tree(os.path.join(d, kind), {base: b"taken"})
            before = read_tree(d, dirs=True)
        elif kind in ("full", "full hidden", "full dir", "object", "inside object") and base not in os.listdir(os.path.join(d, full[1:])):
            if kind in ("object", "inside object"):
                return  # allowed by the interface, however unwise
            good = True
        expect = {base: tree[lp]}
        res = attempt(ocfl.Object().extract_file, objdir=objdir, version=v, dstdir=dst.rstrip("/"), logical_path=lp)
    else:
        expect = tree
        res = attempt(ocfl.Object().extract, objdir=objdir, version=v, dstdir=dst)
    after = read_tree(d, dirs=True)
    if good:
        check(not hasattr(res, "exc"), "extraction to %s refused: %r", kind, res)
        want = {p: x for p, x in before.items() if p != where}
        want.update({where + "/" + p: x for p, x in expect.items()})
        if not expect:
            want[where] = None
        parents = {p for p, x in want.items() if x is None and any(q.startswith(p + "/") for q in want)}
        want = {p: x for p, x in want.items() if p not in parents}
        diff = diff_trees(want, after)
        check(not diff, "extraction to %s: %s", kind, diff)
    else:
        check(hasattr(res, "exc"), "extraction to %s not refused", kind)
        check(isinstance(res.exc, (ocfl.ObjectException, OSError)), "extraction to %s: %r", kind, res)
        left = {p: x for p, x in after.items() if before.get(p, 0) != x}
        check(after == before, "refused extraction to %s changed something: %s", kind, diff_trees(before, after) or left)
    ctx.event(("one: " if case["one"] else "") + kind)
    ctx.nontrivial(bool(tree))


# ---------------------------------------------------------------- looking only

@st.composite
def look_cases(draw):
    return {"obj": draw(objgen.cases(max_versions=3)),
            "ops": draw(st.lists(st.sampled_from(["validate", "nodigest", "inventory", "tree", "parse", "id", "extract", "file", "start", "type",
                                                  "newversion", "refused"]), min_size=2, max_size=6, unique=True)), "r": draw(st.integers(0, 1000))}


def looking(case, ctx):
    d = ctx.dir()
    tree = objgen.make(case["obj"])
    objdir = objgen.write(os.path.join(d, "obj"), tree)
    write_tree(os.path.join(d, "src"), {"f": b"1"})

    def stats():
        out = {}
        for dp, dns, fns in os.walk(objdir):
            for n in [""] + fns:
                s = os.stat(os.path.join(dp, n) if n else dp)
                out[os.path.join(dp, n)] = (s.st_mode, s.st_size, s.st_mtime_ns, s.st_ino)
        return out
    before, st0 = read_tree(objdir, dirs=True), stats()
    n = len(case["obj"]["hist"])
    k = case["r"] % n
    v = objgen.vdir(case["obj"], k)
    want = gen.tree_bytes(case["obj"]["hist"][k])
    for op in case["ops"]:
        o = ocfl.Object()
        if op == "validate":
            check(o.validate(objdir=objdir)[0], "valid object reported invalid")
        elif op == "nodigest":
            check(o.validate(objdir=objdir, check_digests=False)[0], "valid object reported invalid")
        elif op == "inventory":
            o.validate_inventory(os.path.join(objdir, "inventory.json"))
        elif op == "tree":
            text = o.tree(objdir)
            for name in os.listdir(objdir):
                check(any(name in line for line in text.splitlines()) or "\n" in name, "tree does not show %r", name)
        elif op == "parse":
            inv = ocfl.Object(path=objdir).parse_inventory()
            check(inv.id == case["obj"]["id"], "id %r", inv.id)
        elif op == "id":
            check(ocfl.Object(path=objdir).id_from_inventory() == case["obj"]["id"], "id_from_inventory")
        elif op == "extract":
            o.extract(objdir=objdir, version=v, dstdir=os.path.join(d, "out-" + v))
            check(read_tree(os.path.join(d, "out-" + v), dirs=True) == want, "extracted %s differs", v)
        elif op == "file" and want:
            lp = sorted(want)[case["r"] % len(want)]
            o.extract_file(objdir=objdir, version=v, dstdir=os.path.join(d, "one-" + v), logical_path=lp)
            check(read_tree(os.path.join(d, "one-" + v)) == {os.path.basename(lp): want[lp]}, "extracted %r differs", lp)
        elif op == "start":
            nv = o.start_new_version(objdir=objdir, srcdir=os.path.join(d, "src"), digest_algorithm=["sha512", "sha256"][case["r"] // 7 % 2])
            try:
                nv.add("f", "some/new/name/of/f")
            except ocfl.NewVersionException:
                pass
        elif op == "newversion":
            nv = o.start_new_version(objdir=objdir, srcdir=os.path.join(d, "src"))
            for lp in list(nv.inventory.current_version.logical_paths):
                nv.delete(lp)
        elif op == "type":
            from ocfl.object_utils import find_path_type
            check(find_path_type(objdir) == "object", "find_path_type %r", find_path_type(objdir))
        elif op == "refused":
            for bad in ("v0", "v%d" % (n + 7), "", "x", v + " ", "V1"):
                check(not attempt(o.extract, objdir=objdir, version=bad, dstdir=os.path.join(d, "bad"), expected=(ocfl.ObjectException,)),
                      "version %r extracted", bad)
            check(not os.path.exists(os.path.join(d, "bad")), "destination made for a version that does not exist")
        check(read_tree(objdir, dirs=True) == before and stats() == st0, "%s changed the object", op)
        ctx.event(op)
    ctx.nontrivial(any(case["obj"]["hist"]))


# ---------------------------------------------------------------- hostile inventories

HOSTILE = ["../evil", "../../evil", "a/../../evil", "/evil", "ABS/evil", "..", ".", "a/..", "a/./b", "a//b", "a/", "../obj/v1/content/evil", "\\..\\evil", "...", "..a", "a/.."]


@st.composite
def hostile_cases(draw):
    return {"obj": draw(objgen.cases(max_versions=2)), "path": draw(st.sampled_from(HOSTILE)),
            "what": draw(st.sampled_from(["logical", "logical", "content", "both", "version"])), "r": draw(st.integers(0, 1000)),
            "one": draw(st.booleans())}


def hostile(case, ctx):
    d = ctx.dir()
    secret = b"secret outside of the object"
    write_tree(d, {"evil": secret, "x/evil": secret, "out/keep/evil": secret})
    path = case["path"].replace("ABS", d)
    tree = objgen.make(case["obj"])
    inv = json.loads(tree["inventory.json"])
    alg = inv["digestAlgorithm"]
    dg = ref.digest(alg, secret)
    head = inv["head"]
    cd = inv.get("contentDirectory", "content")
    if case["what"] in ("logical", "both"):
        inv["versions"][head]["state"].setdefault(dg, []).append(path)
    else:
        inv["versions"][head]["state"].setdefault(dg, []).append("innocent")
    cpath = "%s/%s/evil" % (head, cd)
    if case["what"] in ("content", "both"):
        cpath = [head + "/" + cd + "/../../../evil", "../evil", os.path.join(d, "evil"), head + "/../../x/evil"][case["r"] % 4]
    else:
        tree[cpath] = secret
    inv["manifest"].setdefault(dg, []).append(cpath)
    tree["inventory.json"] = json.dumps(inv).encode()
    side = "inventory.json." + alg
    tree[side] = (ref.digest(alg, tree["inventory.json"]) + " inventory.json\n").encode()
    for name in ("inventory.json", side):
        if head + "/" + name in tree:
            tree[head + "/" + name] = tree[name]
    objdir = objgen.write(os.path.join(d, "obj"), tree)
    before = read_tree(d, dirs=True)
    dst = os.path.join(d, "out", "dst")
    version = "head" if case["what"] != "version" else [path, "../" + head, head + "/.."][case["r"] % 3]
    if case["one"]:
        lp = path if case["what"] != "content" else "innocent"
        res = attempt(ocfl.Object().extract_file, objdir=objdir, version=version, dstdir=dst, logical_path=lp)
    else:
        res = attempt(ocfl.Object().extract, objdir=objdir, version=version, dstdir=dst)
    after = read_tree(d, dirs=True)
    outside = {p: x for p, x in after.items() if p != "out/dst" and not p.startswith("out/dst/")}
    diff = diff_trees(before, outside)
    check(not diff, "extraction of a hostile object (%s %r): %s", case["what"], path, diff)
    legal = not ({"", ".", ".."} & set(path.split("/")))
    if not hasattr(res, "exc"):
        check(case["what"] == "logical" and legal, "hostile object (%s %r) extracted", case["what"], path)
    else:
        check(isinstance(res.exc, (ocfl.ObjectException, OSError)), "hostile object: %r", res)
        if case["what"] == "logical" and legal and path not in [p for p, _ in case["obj"]["hist"][-1]] and gen.compatible(path, [p for p, _ in case["obj"]["hist"][-1]]):
            check(not isinstance(res.exc, ocfl.ObjectException), "legal path %r refused: %r", path, res)
    passed, _v = ocfl.Object().validate(objdir=objdir)
    if passed:
        check(case["what"] == "version" or (legal and case["what"] == "logical"), "hostile object (%s %r) validates", case["what"], path)
    ctx.event("%s %s" % (case["what"], "refused" if hasattr(res, "exc") else "extracted"))
    ctx.nontrivial()


PARTS = [
    Part("destination", cases, destination, 2500),
    Part("looking", look_cases, looking, 2000),
    Part("hostile", hostile_cases, hostile, 1500),
]
