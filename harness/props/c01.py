"""C01: every version of an object can be extracted again exactly as it was put in."""
import os

import ocfl
from hypothesis import strategies as st

import gen
import objects
from core import Part, attempt, check, diff_trees, read_tree


@st.composite
def cases(draw, mode=None):
    hist = draw(gen.histories())
    return {
        "mode": mode or draw(st.sampled_from(["build", "update"])),
        "id": draw(gen.object_ids()),
        "cfg": draw(gen.configs()),
        "hist": hist,
        "metas": [draw(gen.metadata()) for _ in hist],
        "ucfg": [draw(update_changes()) for _ in hist[1:]],
        "pick": draw(st.integers(0, 50)),
    }


@st.composite
def update_changes(draw):
    """Change of settings at an update."""
    ch = {}
    if draw(st.sampled_from([False, False, True])):
        ch["content_path_normalization"] = draw(st.sampled_from(["uri", "md5", None]))
    if draw(st.sampled_from([False, False, True])):
        ch["forward_delta"] = draw(st.booleans())
    if draw(st.sampled_from([False, False, True])):
        ch["dedupe"] = draw(st.booleans())
    if draw(st.sampled_from([False, False, False, True])):
        ch["digest_algorithm"] = draw(st.sampled_from(gen.SPEC_DIGESTS))
    return ch


def make(case, d, after=None):
    if case["mode"] == "build":
        return objects.build(d, case["id"], case["cfg"], case["hist"], case["metas"])
    return objects.create_and_update(d, case["id"], case["cfg"], case["hist"], case["metas"],
                                     update_cfgs=case["ucfg"], after=after)


def check_extract(d, objdir, case, tag, versions, cfg):
    for i, v in versions:
        want = gen.tree_bytes(case["hist"][i])
        dst = os.path.join(d, "out-%s-%s" % (tag, v))
        md = ocfl.Object(lax_digests=cfg["lax_digests"]).extract(objdir=objdir, version=v, dstdir=dst)
        got = read_tree(dst, dirs=True)
        diff = diff_trees(want, got, "source", "extracted")
        check(not diff, "extracting %s (%s): %s", v, tag, diff)
        check_metadata(md, case, i, v)


def check_metadata(md, case, i, v):
    m = case["metas"][i]
    if m is not None:
        for attr, val in zip(("created", "message", "name", "address"), m):
            if val is not None:
                check(getattr(md, attr) == val, "%s metadata %s: %r, expected %r", v, attr, getattr(md, attr), val)
            elif attr != "created":
                check(getattr(md, attr) is None, "%s metadata %s: %r, expected none", v, attr, getattr(md, attr))
    check(md.id == case["id"], "%s metadata id %r, expected %r", v, md.id, case["id"])


def roundtrip(case, ctx):
    d = ctx.dir()
    cfg = case["cfg"]
    n = len(case["hist"])

    def after(i, objdir, inv):
        # All versions so far, straight after each update, not only at the end
        if i < n:
            check_extract(d, objdir, case, "after%d" % i, [(k, "v%d" % (k + 1)) for k in range(i)], cfg)
    objdir, _inv = make(case, d, after)
    check_extract(d, objdir, case, "final", [(i, "v%d" % (i + 1)) for i in range(n)] + [(n - 1, "head")], cfg)
    # One file at a time
    for i, tree in enumerate(case["hist"]):
        if not tree:
            continue
        lp, token = tree[case["pick"] % len(tree)]
        dst = os.path.join(d, "one-%d" % i)
        v = "head" if (i == n - 1 and case["pick"] % 2) else "v%d" % (i + 1)
        md = ocfl.Object(lax_digests=cfg["lax_digests"]).extract_file(objdir=objdir, version=v, dstdir=dst, logical_path=lp)
        got = read_tree(dst, dirs=True)
        diff = diff_trees({os.path.basename(lp): gen.content(token)}, got)
        check(not diff, "extract_file %r of %s: %s", lp, v, diff)
        check(md.version == "v%d" % (i + 1), "extract_file metadata version %r", md.version)
        check_metadata(md, case, i, v)
        # A path that is not in the version is refused
        bad = attempt(ocfl.Object(lax_digests=cfg["lax_digests"]).extract_file, objdir=objdir, version=v,
                      dstdir=os.path.join(d, "bad-%d" % i), logical_path=lp + "-not-there", expected=(ocfl.ObjectException,))
        if lp + "-not-there" not in [p for p, _ in tree]:
            check(not bad, "extract_file of a path not in the version succeeded")
    # Versions that do not exist are refused
    for v in ("v%d" % (n + 1), "v0", "1", ""):
        bad = attempt(ocfl.Object(lax_digests=cfg["lax_digests"]).extract, objdir=objdir, version=v,
                      dstdir=os.path.join(d, "bad-v"), expected=(ocfl.ObjectException,))
        check(not bad, "extract of missing version %r succeeded", v)
    toks = [[c for _, c in t] for t in case["hist"]]
    dup = any(len(set(t)) < len(t) for t in toks)
    shared = any(set(a) & set(b) for a, b in zip(toks, toks[1:]))
    ctx.event(case["mode"])
    ctx.event("versions=%d" % n)
    ctx.event("files>0", 1 if any(toks) else 0)
    ctx.event("duplicate content in a version", int(dup))
    ctx.event("content shared by versions", int(shared))
    ctx.event("lax digest", int(cfg["lax_digests"]))
    ctx.event("norm=%s" % cfg["content_path_normalization"])
    ctx.nontrivial((dup or shared) and n > 1)


PARTS = [
    Part("roundtrip", cases, roundtrip, 6000),
]
