"""C03: adding a version never alters what earlier versions hold."""
import json
import os

import ocfl
from hypothesis import strategies as st

import gen
import objects
import objgen
import ref
from core import Part, Raised, attempt, check, diff_trees, read_tree, write_tree
from props import c01


@st.composite
def cases(draw):
    hist = draw(gen.histories(min_versions=2))
    case = {
        "mode": "update",
        "id": draw(gen.object_ids()),
        "cfg": draw(gen.configs()),
        "hist": hist,
        "metas": [draw(gen.metadata()) for _ in hist],
        "ucfg": [draw(c01.update_changes()) for _ in hist[1:]],
        "via": [draw(st.sampled_from(["content", "content", "newversion", "metadata"])) for _ in hist[1:]],
        "extra": draw(st.sampled_from([[], [], ["extensions/0005-mutable-head/x"], ["logs/a/b"], ["v1/stray/f"]])),
        "ufix": [draw(st.sampled_from([None, None, [], ["md5"], ["sha1", "md5"]])) for _ in hist[1:]],
    }
    return case


def history(case, ctx):
    """Snapshot the object before each update and compare afterwards."""
    d = ctx.dir()
    cfg = case["cfg"]
    lax = cfg["lax_digests"]
    src = objects.write_sources(os.path.join(d, "src"), case["hist"])
    objdir = os.path.join(d, "obj")
    ocfl.Object(**objects.object_kwargs(case["id"], cfg)).create(
        srcdir=os.path.join(src, "v1"), metadata=objects.meta_obj(case["metas"][0]), objdir=objdir)
    for p in case["extra"]:
        os.makedirs(os.path.dirname(os.path.join(objdir, p)), exist_ok=True)
        with open(os.path.join(objdir, p), "w") as fh:
            fh.write("extra")
    srcbefore = read_tree(src, dirs=True)
    for i in range(1, len(case["hist"])):
        before = read_tree(objdir, dirs=True)
        inv0 = json.loads(before["inventory.json"])
        maps0 = {v: ref.version_content(before, inv0, v) for v in inv0["versions"]}
        c = dict(cfg)
        c.update(case["ucfg"][i - 1])
        c["fixity"] = case["ufix"][i - 1]
        obj = ocfl.Object(**objects.object_kwargs(None, c))
        md = objects.meta_obj(case["metas"][i])
        srcdir = os.path.join(src, "v%d" % (i + 1))
        via = case["via"][i - 1]
        if via == "content":
            obj.add_version_with_content(objdir=objdir, srcdir=srcdir, metadata=md)
        elif via == "metadata":
            obj.add_version_with_content(objdir=objdir, srcdir=None, metadata=md)
        else:
            nv = obj.start_new_version(objdir=objdir, srcdir=srcdir, digest_algorithm=c["digest_algorithm"],
                                       metadata=md, carry_content_forward=True)
            for lp in list(nv.inventory.current_version.logical_paths):
                if len(lp) % 2:
                    nv.delete(lp)
            have = nv.inventory.current_version.logical_paths
            for p, _c in case["hist"][i]:
                if gen.compatible(p, have):
                    nv.add(p, p)
                    have = nv.inventory.current_version.logical_paths
            obj.write_new_version(nv)
        after = read_tree(objdir, dirs=True)
        head0 = inv0["head"]
        newv = "v%d" % (i + 1)
        inv1 = json.loads(after["inventory.json"])
        check(inv1["head"] == newv, "head is %s after adding %s", inv1["head"], newv)
        # Everything except the root inventory, its sidecar and the new version directory is as it was
        roots = {"inventory.json", "inventory.json." + inv0["digestAlgorithm"], "inventory.json." + inv1["digestAlgorithm"]}
        keep0 = {p: x for p, x in before.items() if p not in roots}
        keep1 = {p: x for p, x in after.items() if p not in roots and p.split("/")[0] != newv}
        diff = diff_trees(keep0, keep1, "before", "after adding " + newv)
        check(not diff, "existing files changed by adding %s: %s", newv, diff)
        # The new root inventory still describes every earlier version in the same way
        check(set(inv1["versions"]) == set(inv0["versions"]) | {newv}, "versions %r", sorted(inv1["versions"]))
        for v in inv0["versions"]:
            check(ref.version_content(after, inv1, v) == maps0[v], "content of %s changed by adding %s", v, newv)
            for key in ("created", "message", "user"):
                check(inv0["versions"][v].get(key) == inv1["versions"][v].get(key), "%s of %s changed by adding %s", key, v, newv)
        for key in ("id", "contentDirectory", "type"):
            check(inv0.get(key) == inv1.get(key), "%s changed by adding %s: %r to %r", key, newv, inv0.get(key), inv1.get(key))
        check({p for ps in inv0["manifest"].values() for p in ps} <= {p for ps in inv1["manifest"].values() for p in ps},
              "manifest lost content paths when adding %s", newv)
        # ...and the previous head inventory is still there
        check(after[head0 + "/inventory.json"] == before["inventory.json"], "inventory of %s not kept", head0)
        passed, validator = ocfl.Object(lax_digests=lax).validate(objdir=objdir)
        check(passed, "object invalid after adding %s: %s", newv, str(validator)[:400])
        ctx.event("via " + via)
        ctx.event("digest changed", int(inv0["digestAlgorithm"] != inv1["digestAlgorithm"]))
        ctx.nontrivial(bool(inv0["manifest"]))
    diff = diff_trees(srcbefore, read_tree(src, dirs=True))
    check(not diff, "source directories changed: %s", diff)


# ---------------------------------------------------------------- objects made by others

@st.composite
def foreign_cases(draw):
    return {"obj": draw(objgen.cases()), "tree": draw(gen.trees()), "meta": draw(gen.metadata()), "via": draw(st.sampled_from(["content", "content", "metadata", "carry", "empty"])),
            "cfg": draw(gen.configs(lax=False, spec=False, fixity=False, contentdir=False)), "digest": draw(st.sampled_from(["same", "same", "other", None])),
            "fixity": draw(st.sampled_from([None, None, [], ["md5"], ["sha1", "blake2b-160"]]))}


def foreign(case, ctx):
    """The object was not written by this library: zero padding, capitals in digests, odd content paths and so on."""
    o = case["obj"]
    d = ctx.dir()
    objdir = objgen.write(os.path.join(d, "obj"), objgen.make(o))
    src = os.path.join(d, "src")
    new = gen.tree_bytes(case["tree"])
    os.makedirs(src)
    write_tree(src, new)
    before = read_tree(d, dirs=True)
    tree0 = read_tree(objdir, dirs=True)
    inv0 = json.loads(tree0["inventory.json"])
    head0 = inv0["head"]
    content0 = {v: ref.version_content(tree0, inv0, v) for v in inv0["versions"]}
    alg = {"same": o["alg"], "other": "sha256" if o["alg"] == "sha512" else "sha512", None: None}[case["digest"]]
    cfg = dict(case["cfg"], digest_algorithm=alg, fixity=case["fixity"])
    obj = ocfl.Object(**cfg)
    via = case["via"]
    want = dict(new)

    def update():
        if via == "content":
            return obj.add_version_with_content(objdir=objdir, srcdir=src, metadata=objects.meta_obj(case["meta"]))
        if via == "metadata":
            return obj.add_version_with_content(objdir=objdir, metadata=objects.meta_obj(case["meta"]))
        nv = obj.start_new_version(objdir=objdir, srcdir=src, digest_algorithm=alg, fixity=case["fixity"], metadata=objects.meta_obj(case["meta"]), carry_content_forward=(via == "carry"))
        if via == "carry":
            want.clear()
            want.update(content0[head0])
            for p in sorted(new):
                if gen.compatible(p, want):
                    nv.add(p, p)
                    want[p] = new[p]
        else:
            want.clear()
        return obj.write_new_version(nv)
    n = len(o["hist"])
    newv = "v%0*d" % (o["pad"], n + 1) if o["pad"] else "v%d" % (n + 1)
    if o["pad"] and newv[1] != "0":
        res = attempt(update, expected=(ocfl.ObjectException, ocfl.InventoryException, ocfl.NewVersionException))
        check(isinstance(res, Raised), "version %s added to zero-padded object", newv)
        diff = diff_trees(before, read_tree(d, dirs=True))
        check(not diff, "refused, but files changed: %s", diff)
        ctx.event("no more versions")
        return
    inv = update()
    if via == "metadata":
        want = content0[head0]
    check(inv.head == newv, "new version is %s, expected %s", inv.head, newv)
    after = read_tree(objdir, dirs=True)
    problems, inv1 = ref.check_object(after, strict=False, need_version_inventories=False)
    check(not problems, "not valid after adding %s: %s", newv, problems[:3])
    passed, validator = ocfl.Object().validate(objdir=objdir)
    check(passed, "reported invalid after adding %s: %s", newv, str(validator)[:400])
    roots = {"inventory.json", "inventory.json." + inv0["digestAlgorithm"], "inventory.json." + inv1["digestAlgorithm"]}
    diff = diff_trees({p: x for p, x in tree0.items() if p not in roots}, {p: x for p, x in after.items() if p not in roots and p.split("/")[0] != newv})
    check(not diff, "existing files changed by adding %s: %s", newv, diff)
    diff = diff_trees({p: x for p, x in before.items() if p.split("/")[0] == "src"}, {p: x for p, x in read_tree(d, dirs=True).items() if p.split("/")[0] == "src"})
    check(not diff, "source changed: %s", diff)
    check(list(inv1["versions"]) and set(inv1["versions"]) == set(inv0["versions"]) | {newv}, "versions %r", sorted(inv1["versions"]))
    check(inv1["digestAlgorithm"] == (alg or o["alg"]), "digest algorithm is %s", inv1["digestAlgorithm"])
    for v in inv0["versions"]:
        check(ref.version_content(after, inv1, v) == content0[v], "content of %s changed by adding %s", v, newv)
        for key in ("created", "message", "user"):
            check(inv0["versions"][v].get(key) == inv1["versions"][v].get(key), "%s of %s changed by adding %s", key, v, newv)
    for key in ("id", "contentDirectory", "type"):
        check(inv0.get(key) == inv1.get(key), "%s changed by adding %s: %r to %r", key, newv, inv0.get(key), inv1.get(key))
    diff = diff_trees(want, ref.version_content(after, inv1, newv))
    check(not diff, "content of %s: %s", newv, diff)
    # Fixity of earlier content is kept unless something else was asked for
    if case["fixity"] is None:
        for falg, block in inv0.get("fixity", {}).items():
            have = {(dd.lower(), p) for dd, ps in inv1.get("fixity", {}).get(falg, {}).items() for p in ps}
            check({(dd.lower(), p) for dd, ps in block.items() for p in ps} <= have, "fixity %s lost by adding %s", falg, newv)
    out = os.path.join(d, "out")
    ocfl.Object().extract(objdir=objdir, version=newv, dstdir=out)
    diff = diff_trees(want, read_tree(out))
    check(not diff, "extracted %s: %s", newv, diff)
    ctx.event("via " + via)
    ctx.nontrivial(bool(inv0["manifest"]) and any(o["hexcase"][k] != "lower" for k in range(n)) or bool(o["pad"]))


PARTS = [
    Part("history", cases, history, 4000),
    Part("foreign", foreign_cases, foreign, 2500),
]
