"""C08: changing the digest algorithm keeps all content and all checks."""
import json
import os

import ocfl
from hypothesis import strategies as st

import gen
import objects
import ref
from core import Part, Raised, attempt, check, read_tree
from ocfl.validator import Validator


@st.composite
def cases(draw):
    hist = draw(gen.histories(min_versions=2, max_versions=4, max_paths=5))
    lax = draw(st.sampled_from([False, False, True]))
    pool = gen.SPEC_DIGESTS + (gen.LAX_DIGESTS if lax else [])
    return {
        "id": draw(gen.object_ids()), "lax": lax,
        "cfg": dict(draw(gen.configs(lax=False, fixity=False)), lax_digests=lax),
        "algs": [draw(st.sampled_from(pool)) for _ in hist],
        "how": [draw(st.sampled_from(["content", "metadata", "newversion"])) for _ in hist],
        "hist": hist, "metas": [draw(gen.metadata(full=True)) for _ in hist],
    }


def change(case, ctx):
    d = ctx.dir()
    lax = case["lax"]
    src = objects.write_sources(os.path.join(d, "src"), case["hist"])
    objdir = os.path.join(d, "obj")
    cfg = dict(case["cfg"], digest_algorithm=case["algs"][0])
    ocfl.Object(**objects.object_kwargs(case["id"], cfg)).create(srcdir=os.path.join(src, "v1"), metadata=objects.meta_obj(case["metas"][0]), objdir=objdir)
    states = [gen.tree_bytes(case["hist"][0])]
    used = [case["algs"][0]]
    changes = 0
    for i in range(1, len(case["hist"])):
        alg = case["algs"][i]
        v = "v%d" % (i + 1)
        cfg["digest_algorithm"] = alg
        before = read_tree(objdir, dirs=True)
        inv0 = json.loads(before["inventory.json"])
        obj = ocfl.Object(**objects.object_kwargs(None, cfg))
        md = objects.meta_obj(case["metas"][i])
        srcdir = os.path.join(src, v)
        how = case["how"][i]
        if how == "content":
            obj.add_version_with_content(objdir=objdir, srcdir=srcdir, metadata=md)
            states.append(gen.tree_bytes(case["hist"][i]))
        elif how == "metadata":
            obj.add_version_with_content(objdir=objdir, metadata=md)
            states.append(states[-1])
        else:
            nv = obj.start_new_version(objdir=objdir, srcdir=srcdir, digest_algorithm=alg, metadata=md)
            st_ = dict(states[-1])
            for p, t in case["hist"][i]:
                if gen.compatible(p, st_):
                    nv.add(p, p)
                    st_[p] = gen.content(t)
            for p in sorted(st_)[::3]:
                nv.delete(p)
                del st_[p]
            obj.write_new_version(nv)
            states.append(st_)
        used.append(alg)
        tree, inv = objects.assert_valid(objdir, lax=lax, what="object after change to " + alg)
        check(inv["digestAlgorithm"] == alg, "digestAlgorithm %s, expected %s", inv["digestAlgorithm"], alg)
        sides = sorted(p for p in tree if p.startswith("inventory.json."))
        check(sides == ["inventory.json." + alg], "root sidecars %s", sides)
        sides = sorted(p for p in tree if p.startswith(v + "/inventory.json."))
        check(sides == [v + "/inventory.json." + alg], "sidecars of %s: %s", v, sides)
        for k, s in enumerate(states):
            vk = "v%d" % (k + 1)
            check(ref.version_content(tree, inv, vk) == s, "content of %s wrong after change to %s", vk, alg)
            check("%s/inventory.json.%s" % (vk, used[k]) in tree, "%s has no sidecar with %s", vk, used[k])
            check(json.loads(tree[vk + "/inventory.json"])["digestAlgorithm"] == used[k], "digest algorithm of %s", vk)
        # Digests are all of the new form and right; what was known of old content is kept as fixity
        for dg, paths in inv["manifest"].items():
            for p in paths:
                check(ref.digest(alg, tree[p]) == dg, "manifest digest of %s", p)
        if alg != inv0["digestAlgorithm"]:
            changes += 1
            fix = inv.get("fixity", {}).get(inv0["digestAlgorithm"])
            check(fix is not None, "digests with %s not kept as fixity", inv0["digestAlgorithm"])
            have = {p: dg for dg, ps in fix.items() for p in ps}
            old = inv0.get("fixity", {}).get(inv0["digestAlgorithm"])
            for dg, paths in (inv0["manifest"] if old is None else old).items():
                for p in paths:
                    if how == "content" or p in [q for qs in inv["manifest"].values() for q in qs]:
                        check(have.get(p) == dg, "fixity of %s not kept", p)
        for a, block in inv.get("fixity", {}).items():
            for dg, paths in block.items():
                for p in paths:
                    check(ref.digest(a, tree[p]) == dg, "fixity %s of %s wrong", a, p)
        ctx.event(how)
        ctx.event("changed", int(alg != inv0["digestAlgorithm"]))
    # Still detects damage to content that only the first versions had
    ctx.nontrivial(changes > 0 and any(states))


@st.composite
def damaged_cases(draw):
    hist = draw(gen.histories(min_versions=1, max_versions=3, max_paths=5))
    return {"id": draw(gen.object_ids()), "cfg": dict(draw(gen.configs(lax=False, fixity=False)), dedupe=draw(st.sampled_from([False, False, True]))),
            "hist": hist, "metas": [draw(gen.metadata()) for _ in hist], "to": draw(st.sampled_from(gen.SPEC_DIGESTS)), "fixity": draw(st.sampled_from([None, None, [], ["md5"]])),
            "pick": draw(st.lists(st.tuples(st.integers(0, 50), st.integers(0, 6)), min_size=1, max_size=2)), "carry": draw(st.booleans())}


def damaged(case, ctx):
    """Damage done before the change is not taken for good by it."""
    d = ctx.dir()
    objdir = os.path.join(d, "obj")
    objects.create_and_update(d, case["id"], case["cfg"], case["hist"], case["metas"])
    tree = read_tree(objdir, dirs=True)
    inv = json.loads(tree["inventory.json"])
    content = sorted(p for ps in inv["manifest"].values() for p in ps)
    if not content:
        return
    hit = set()
    for k, how in case["pick"]:
        p = content[k % len(content)]
        old = tree[p]
        new = [old + b"x", old[1:], b"other", old[::-1]][how] if how < 4 else tree[content[(k + how - 3) % len(content)]]
        if p not in hit and new != old:
            hit.add(p)
            tree[p] = new
            with open(os.path.join(objdir, p), "wb") as fh:
                fh.write(new)
    if not hit:
        return
    apart = any(len({tree[p] for p in ps}) > 1 for ps in inv["manifest"].values())
    # Files that were different and have become the same cannot be told apart by their new digest
    merged = len({tree[p] for p in content}) < len(inv["manifest"])
    changes = case["to"] != inv["digestAlgorithm"]
    kw = objects.object_kwargs(None, dict(case["cfg"], digest_algorithm=case["to"]))
    kw["fixity"] = case["fixity"]
    src = objects.write_sources(os.path.join(d, "more"), [[["new", "s:new content"]]])
    res = attempt(lambda: ocfl.Object(**kw).add_version_with_content(objdir=objdir, srcdir=None if case["carry"] else os.path.join(src, "v1"), metadata=ocfl.VersionMetadata(message="m")),
                  expected=(ocfl.ObjectException,))
    if isinstance(res, Raised):
        check(read_tree(objdir, dirs=True) == tree, "change refused, but the object changed")
        ctx.event("refused")
    else:
        check(not (apart and changes), "copies of a file that are not the same any more have been given one digest")
        check(not (merged and changes), "files that have become the same have been taken for one")
        now = read_tree(objdir, dirs=True)
        for p, data in tree.items():
            if p not in ("inventory.json", "inventory.json." + inv["digestAlgorithm"]):
                check(now.get(p, 0) == data, "file %s changed", p)
        ctx.event("changed" if changes else "same algorithm")
    v = Validator()
    check(v.validate_object(objdir) is False, "damage to %s done before the change is not found after it", sorted(hit))
    check({"E092a", "E023a"} & set(v.log.codes), "damage to %s done before the change is reported as %s", sorted(hit), sorted(v.log.codes))
    ctx.event("copies differ", int(apart))
    ctx.event("files merged", int(merged))
    ctx.nontrivial(changes)


PARTS = [Part("change", cases, change, 3000), Part("damaged", damaged_cases, damaged, 2000, rule="the algorithm changes after content is damaged")]
