"""C05: assembling a version by additions, deletions and renames gives exactly that state."""
import os

import ocfl
from hypothesis import strategies as st

import gen
import objects
import ref
from core import Part, check, diff_trees, read_tree, write_tree


@st.composite
def cases(draw):
    tricky = draw(st.booleans())
    prior = draw(gen.histories(min_versions=1, max_versions=2, max_paths=5, tricky=tricky, big=False, long_from=2))
    pool = sorted({p for t in prior for p, _ in t})
    src = draw(gen.trees(max_size=5, tricky=tricky, big=False, min_size=1))
    spaths = [p for p, _ in src]
    lps = st.one_of(st.sampled_from(pool) if pool else gen.paths(tricky), st.sampled_from(spaths), gen.paths(tricky),
                    st.sampled_from(["a", "a/b", "a/b/c", "b", "..", ".", "", "/a", "a/", "a//b", "a/../b", "./a", ".../x"]))
    op = st.one_of(
        st.tuples(st.just("add"), st.sampled_from(spaths), lps, st.sampled_from([None, None, None, "x", "x/y", "same", "bad", "z z"])),
        st.tuples(st.just("delete"), lps),
        st.tuples(st.just("rename"), lps, lps),
        st.tuples(st.just("add"), st.sampled_from(spaths), lps, st.none()),
        st.tuples(st.just("pick delete"), st.integers(0, 20)),
        st.tuples(st.just("pick rename"), st.integers(0, 20), lps),
        st.tuples(st.sampled_from(["created", "message", "name", "address"]), st.integers(0, 10)),
    ).map(list)
    return {
        "first": draw(st.sampled_from([False, False, False, True])), "omit": draw(st.sampled_from([False, "none", "leave out"])),
        "carry": draw(st.booleans()),
        "id": draw(gen.object_ids()),
        "cfg": draw(gen.configs(lax=False, fixity=False)),
        "alg": draw(st.sampled_from([None, None, None, "sha512", "sha256"])),
        "hist": prior,
        "metas": [draw(gen.metadata(full=True)) for _ in prior],
        "meta": draw(gen.metadata(full=True)),
        "src": src,
        "ops": draw(st.lists(op, min_size=1, max_size=14)),
    }


def legal(path, others):
    els = path.split("/")
    return not ({"", ".", ".."} & set(els)) and gen.compatible(path, others)


class Model:
    """What the new version should hold."""

    def __init__(self, state):
        self.state = dict(state)   # logical path -> bytes

    def can_add(self, lp):
        return legal(lp, self.state)

    def can_rename(self, old, new):
        if old not in self.state or new in self.state:
            return False
        return legal(new, [p for p in self.state if p != old])


def attempt(nv, fn, allowed, what, snapshot):
    before = snapshot()
    try:
        fn()
    except ocfl.NewVersionException:
        check(not allowed, "%s refused", what)
        check(snapshot() == before, "%s refused, but the new version changed", what)
        return False
    check(allowed, "%s not refused", what)
    return True


def assemble(case, ctx):
    d = ctx.dir()
    cfg = dict(case["cfg"])
    write_tree(os.path.join(d, "src"), gen.tree_bytes(case["src"]))
    src = gen.tree_bytes(case["src"])
    objdir = os.path.join(d, "obj")
    if case["first"]:
        kw = {"spec_version": cfg["spec_version"], "digest_algorithm": cfg["digest_algorithm"], "content_directory": cfg["content_directory"],
              "dedupe": cfg["dedupe"], "content_path_normalization": cfg["content_path_normalization"]}
        defaults = {"spec_version": "1.1", "digest_algorithm": "sha512", "content_directory": "content", "dedupe": True, "content_path_normalization": "uri"}
        for k, x in defaults.items():
            if case["omit"] and kw[k] == x:
                if case["omit"] == "none" and k in ("digest_algorithm", "content_directory"):
                    kw[k] = None
                else:
                    del kw[k]
        nv = ocfl.NewVersion.first_version(srcdir=os.path.join(d, "src"), identifier=case["id"], metadata=objects.meta_obj(case["meta"]), **kw)
        check(nv.inventory.data.get("contentDirectory", "content") == cfg["content_directory"], "contentDirectory %r", nv.inventory.data.get("contentDirectory"))
        check(nv.inventory.digest_algorithm == cfg["digest_algorithm"] and nv.inventory.spec_version == cfg["spec_version"] and nv.inventory.id == case["id"], "inventory %r", nv.inventory.data)
        prev = {}
        vdir = "v1"
    else:
        objects.create_and_update(d, case["id"], cfg, case["hist"], case["metas"])
        obj = ocfl.Object(**objects.object_kwargs(None, cfg))
        nv = obj.start_new_version(objdir=objdir, srcdir=os.path.join(d, "src"), digest_algorithm=case["alg"],
                                   metadata=objects.meta_obj(case["meta"]), carry_content_forward=case["carry"])
        prev = gen.tree_bytes(case["hist"][-1])
        vdir = "v%d" % (len(case["hist"]) + 1)
    before = read_tree(d, dirs=True)
    m = Model(prev if case["carry"] and not case["first"] else {})
    meta = dict(zip(("created", "message", "name", "address"), case["meta"]))
    inv = nv.inventory
    check(inv.head == vdir, "head %s, expected %s", inv.head, vdir)
    alg = (not case["first"] and case["alg"]) or cfg["digest_algorithm"]

    def flat():
        return {lp: dg for dg, lps in inv.current_version.state.items() for lp in lps}

    def snapshot():
        return (flat(), {p: dg for dg, ps in inv.manifest.items() for p in ps}, dict(nv.files_to_copy))
    done = 0
    for op in case["ops"]:
        kind = op[0]
        if kind == "pick delete" and m.state:
            kind, op = "delete", ["delete", sorted(m.state)[op[1] % len(m.state)]]
        elif kind == "pick rename" and m.state:
            kind, op = "rename", ["rename", sorted(m.state)[op[1] % len(m.state)], op[2]]
        if kind == "add":
            _k, sp, lp, how = op
            cp = None
            ok = m.can_add(lp)
            if how is not None:
                prefix = "%s/%s/" % (vdir, cfg["content_directory"])
                have = inv.content_paths
                if how == "bad":
                    cp, ok = "v9/other/" + sp, False
                else:
                    cp = prefix + (sp if how == "same" else how)
                    ok = ok and gen.compatible(cp, have)
            else:
                # A generated content path could run into an existing one used as a directory
                before_add = snapshot()
            if how is None and ok:
                try:
                    nv.add(sp, lp)
                except ocfl.NewVersionException as e:
                    check(snapshot() == before_add, "add %r refused, but the new version changed", lp)
                    prefix = "%s/%s/" % (vdir, cfg["content_directory"])
                    check(any(c.startswith(prefix) for c in inv.content_paths), "add %r as %r refused: %s", sp, lp, e)
                    ctx.event("content path conflict")
                    continue
                m.state[lp] = src[sp]
                done += 1
            elif attempt(nv, lambda: nv.add(sp, lp, content_path=cp), ok, "add %r as %r (content path %r)" % (sp, lp, cp), snapshot):
                m.state[lp] = src[sp]
                done += 1
                ctx.event("explicit content path", int(cp is not None))
        elif kind == "delete":
            lp = op[1]
            if attempt(nv, lambda: nv.delete(lp), lp in m.state, "delete %r" % lp, snapshot):
                del m.state[lp]
                done += 1
        elif kind == "rename":
            old, new = op[1], op[2]
            if attempt(nv, lambda: nv.rename(old, new), m.can_rename(old, new), "rename %r to %r" % (old, new), snapshot):
                m.state[new] = m.state.pop(old)
                done += 1
        elif kind in meta:
            val = {"created": gen.CREATED, "message": gen.MESSAGES, "name": gen.NAMES, "address": gen.ADDRESSES}[kind]
            val = val[op[1] % len(val)]
            setattr(nv, {"name": "user_name", "address": "user_address"}.get(kind, kind), val)
            check(getattr(nv, {"name": "user_name", "address": "user_address"}.get(kind, kind)) == val, "%s not set", kind)
            meta[kind] = val
        # The state so far
        want = {lp: ref.digest(alg, x) for lp, x in m.state.items()}
        got = flat()
        check(got == want, "after %r: logical paths %r, expected %r", op, sorted(got), sorted(want))
        check(sorted(inv.current_version.logical_paths) == sorted(m.state), "logical_paths %r", inv.current_version.logical_paths)
    # Difference from the previous version
    prevd = {(ref.digest(alg, x), lp) for lp, x in prev.items()}
    cur = {(ref.digest(alg, x), lp) for lp, x in m.state.items()}
    diff = nv.diff_with_previous()
    check(len(diff) == len(set(diff)), "diff has repeats: %r", diff)
    check(set(diff) == {("A",) + x for x in cur - prevd} | {("D",) + x for x in prevd - cur}, "diff_with_previous %r", diff)
    check(read_tree(d, dirs=True) == before, "something was written before the version was")
    ctx.event("first" if case["first"] else "carry" if case["carry"] else "empty start")
    for o in case["ops"]:
        ctx.event(o[0])
    ctx.nontrivial(done > 1)
    if case["first"]:
        # Nothing refers to content that is not needed
        used = set(cur and {x for x, _ in cur})
        check(set(inv.manifest) == used, "manifest has digests %r, state %r", sorted(inv.manifest), sorted(used))
        check(set(nv.files_to_copy) == set(inv.content_paths), "files to copy %r, manifest %r", sorted(nv.files_to_copy), sorted(inv.content_paths))
        for cp, sp in nv.files_to_copy.items():
            check(ref.digest(alg, src[sp]) == {p: dg for dg, ps in inv.manifest.items() for p in ps}[cp], "content %s comes from the wrong file", cp)
        return
    obj.write_new_version(nv)
    tree, inv1 = objects.assert_valid(objdir, what="object after assembled version")
    check(inv1["head"] == vdir, "head %s", inv1["head"])
    got = ref.version_content(tree, inv1, vdir)
    diff = diff_trees(m.state, got, "assembled", "stored")
    check(not diff, "version %s: %s", vdir, diff)
    for k, t in enumerate(case["hist"]):
        check(ref.version_content(tree, inv1, "v%d" % (k + 1)) == gen.tree_bytes(t), "content of v%d changed", k + 1)
    vb = inv1["versions"][vdir]
    check(vb["created"] == meta["created"] and vb["message"] == meta["message"] and vb["user"] == {"name": meta["name"], "address": meta["address"]},
          "metadata %r, expected %r", {k: v for k, v in vb.items() if k != "state"}, meta)
    check(read_tree(os.path.join(d, "src"), dirs=True) == src, "source changed")


@st.composite
def diff_cases(draw):
    hist = draw(gen.histories(min_versions=2, max_versions=3, max_paths=4, big=False))
    return {"id": "info:d", "cfg": draw(gen.configs(lax=False)), "hist": hist, "metas": [draw(gen.metadata()) for _ in hist],
            "pre": draw(st.sampled_from([0] * 12 + [7, 8, 9, 10]))}


def abort_if_same(case, ctx):
    """abort_if_no_difference makes a version exactly when there is a difference."""
    d = ctx.dir()
    src = objects.write_sources(os.path.join(d, "src"), case["hist"])
    objdir = os.path.join(d, "obj")
    kw = objects.object_kwargs(case["id"], case["cfg"])
    if case["pre"]:
        # Some versions come first, the earliest of them the same as one to come
        states = [gen.tree_bytes(case["hist"][-1])] + [{"f": b"%d" % k} for k in range(1, case["pre"])] + [gen.tree_bytes(case["hist"][0])]
        for k, s in enumerate(states):
            os.makedirs(os.path.join(d, "pre", "v%d" % (k + 1)))
            write_tree(os.path.join(d, "pre", "v%d" % (k + 1)), s)
        ocfl.Object(**kw).build(srcdir=os.path.join(d, "pre"), objdir=objdir)
    else:
        ocfl.Object(**kw).create(srcdir=os.path.join(src, "v1"), metadata=objects.meta_obj(case["metas"][0]), objdir=objdir)
        states = [gen.tree_bytes(case["hist"][0])]
    n = len(states)
    for i in range(1, len(case["hist"])):
        before = read_tree(objdir, dirs=True)
        want = gen.tree_bytes(case["hist"][i])
        kw["identifier"] = None
        res = ocfl.Object(**kw).add_version_with_content(objdir=objdir, srcdir=os.path.join(src, "v%d" % (i + 1)),
                                                         metadata=objects.meta_obj(case["metas"][i]), abort_if_no_difference=True)
        after = read_tree(objdir, dirs=True)
        if want == states[-1]:
            check(res is None and after == before, "no difference, but a version was made")
            ctx.event("same")
        else:
            n += 1
            check(res is not None and res.head == "v%d" % n, "there was a difference, but no version was made")
            states.append(want)
            ctx.event("different")
        tree, inv = objects.assert_valid(objdir, library=False)
        check(inv["head"] == "v%d" % n, "head %s", inv["head"])
        for k, s in enumerate(states):
            check(ref.version_content(tree, inv, "v%d" % (k + 1)) == s, "content of v%d", k + 1)
    ctx.nontrivial(len(states) - case["pre"] < len(case["hist"]) or len(states) > 1)
    if n > 9:
        ctx.event("ten versions")


PARTS = [
    Part("assemble", cases, assemble, 5000),
    Part("abort_if_same", diff_cases, abort_if_same, 1200),
]
