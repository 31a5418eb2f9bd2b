"""C31: every digest in a fixity block counts, and lax digests allow more algorithms without weakening any check."""
import os

import ocfl
from hypothesis import strategies as st

import gen
import objgen
import ref
from core import HarnessError, Part, Raised, attempt, check, diff_trees, read_tree
from props import c10
from props.c27 import Run

UNKNOWN = ["other", "MD5", "sha-1", "sha384", "", "blake2b", "crc32", "sha512/256", "blake2b-161", "ü"]
EXTENSION = [a for a in gen.FIXITY_DIGESTS if a not in ("sha512", "sha256")]


# ---------------------------------------------------------------- fixity blocks

def entries():
    return st.lists(st.fixed_dictionaries({
        "alg": st.sampled_from(gen.FIXITY_DIGESTS * 4 + UNKNOWN),
        "file": st.integers(0, 30), "what": st.sampled_from(["right"] * 5 + ["upper", "mixed", "wrong", "other", "both", "both"]), "at": st.integers(0, 200)}), max_size=7)


@st.composite
def block_cases(draw):
    obj = draw(objgen.cases(need_content=True))
    n = len(obj["hist"])
    return {"obj": dict(obj, fixity=[None] * n, w011=None), "blocks": [draw(st.one_of(entries(), st.just([]))) for _ in range(n)],
            "sane": draw(st.booleans())}


def wrong(how, alg, right, at):
    """A digest of the right form for another content."""
    i = at % len(right)
    return right[:i] + ("0" if right[i] != "0" else "1") + right[i + 1:] if how == "wrong" else ref.digest(alg, b"something else %d" % at)


def fill(case, inv, entries_, content):
    """Put a fixity block in the inventory. Returns the pairs of algorithm and file with wrong digests, and the unknown algorithms."""
    mine = sorted(p for ps in inv["manifest"].values() for p in ps)
    bad, unknown, block = set(), set(), {}
    seen = {}
    entries_ = [f for e in entries_ for f in ([e] if e["what"] != "both" else [dict(e, what=w) for w in [("right", "wrong"), ("wrong", "right")][e["at"] % 2]])]
    for e in entries_ if mine else []:
        alg, what = e["alg"], e["what"]
        p = mine[e["file"] % len(mine)]
        if case["sane"] and what in ("wrong", "other"):
            what = "right"
        if alg not in gen.FIXITY_DIGESTS:
            unknown.add(alg)
            d = ["", "-", "0" * 32, "X" * 40, "ü", ref.digest("md5", content[p])][e["at"] % 6]
        else:
            right = ref.digest(alg, content[p])
            d = right if what == "right" else right.upper() if what == "upper" else objgen._case("mixed", right) if what == "mixed" else wrong(what, alg, right, e["at"])
            key = (alg, d.lower())
            d = seen.setdefault(key, d)      # a digest is in a block in one spelling only
            if d.lower() != right:
                bad.add((alg, p))
        ps = block.setdefault(alg, {}).setdefault(d, [])
        if p not in ps:
            ps.append(p)
    inv["fixity"] = block
    return bad, unknown


def blocks(case, ctx):
    obj = case["obj"]
    placed = objgen.layout_content(obj)
    content = {p: d for f in placed for p, d in f.items()}
    tree = objgen.make(obj)
    n = len(obj["hist"])
    bad, unknown = set(), set()
    for k in range(n):
        if obj["noinv"][k] and k != n - 1:
            continue
        inv = objgen.inventory(obj, k, placed)
        b, u = fill(case, inv, case["blocks"][k], content)
        bad |= b
        unknown |= u
        data = objgen.dump(obj, inv)
        side = objgen.sidecar(obj, data, inv["digestAlgorithm"])
        for at in ([] if obj["noinv"][k] else [objgen.vdir(obj, k) + "/"]) + ([""] if k == n - 1 else []):
            tree[at + "inventory.json"] = data
            tree[at + "inventory.json." + inv["digestAlgorithm"]] = side
    objdir = objgen.write(os.path.join(ctx.dir(), "obj"), tree)
    for lax in (False, True):
        passed, v = ocfl.Object(lax_digests=lax).validate(objdir=objdir)
        got = {c for c in v.log.codes if c.startswith("E")}
        if unknown and not lax:
            check(not passed and "E056b" in got, "fixity with unknown algorithms %s reported as %s", sorted(unknown), sorted(got))
            continue
        want = {"E093a"} if bad else set()
        check(got == want and bool(passed) == (not bad), "%s digests in fixity blocks: validation %s says %s, errors %s", "wrong" if bad else "only right", "with lax digests" if lax else "", passed, sorted(got))
        text = [m for m in v.log.messages if "E093a" in m]
        for alg, p in bad:
            check(any(p in m and alg in m for m in text), "no report of the wrong %s digest of %r: %s", alg, p, text)
        passed, v = ocfl.Object(lax_digests=lax).validate(objdir=objdir, check_digests=False)
        check(passed, "object not valid without digest checks: %s", v.log.messages)
    if bad:
        ctx.event("wrong digests, %s" % ("unknown algorithms too" if unknown else "known algorithms"))
        ctx.nontrivial()
    elif any(case["blocks"]):
        ctx.event("right digests%s" % (", unknown algorithms too" if unknown else ""))
        ctx.nontrivial()


# ---------------------------------------------------------------- lax digests

@st.composite
def lax_cases(draw):
    return {"obj": draw(objgen.cases(need_content=True, algs=draw(st.sampled_from([EXTENSION, gen.FIXITY_DIGESTS])))),
            "mut": draw(st.sampled_from(sorted(c10.MUTATIONS))), "r": draw(st.integers(0, 10000))}


def errors(v):
    return {c for c in v.log.codes if c.startswith("E")}


def lax(case, ctx):
    obj = case["obj"]
    o = c10.Obj(obj)
    d = ctx.dir()
    objdir = objgen.write(os.path.join(d, "obj"), o.tree)
    strict_ok = all(a in ("sha512", "sha256") for a in [obj["alg"]] + [obj["valg"][k] for k in o.invs if k != o.n - 1])
    passed, v = ocfl.Object(lax_digests=True).validate(objdir=objdir)
    check(passed and not errors(v), "object with algorithms %s not valid with lax digests: %s", [obj["alg"]] + obj["valg"], v.log.messages)
    passed, v = ocfl.Object().validate(objdir=objdir)
    check(bool(passed) == strict_ok and (strict_ok or errors(v) & {"E025a", "E025b"}), "object with algorithms %s: %s without lax digests, errors %s", [obj["alg"]] + obj["valg"], passed, sorted(errors(v)))
    k = case["r"] % o.n
    dst = os.path.join(d, "out")
    ocfl.Object(lax_digests=True).extract(objdir=objdir, version=objgen.vdir(obj, k), dstdir=dst)
    diff = diff_trees({lp: gen.content(tok) for lp, tok in obj["hist"][k]}, read_tree(dst))
    check(not diff, "version %d extracted with lax digests differs: %s", k + 1, diff)
    check(not diff_trees({p: x for p, x in o.tree.items() if x is not None}, {p: x for p, x in read_tree(objdir).items() if x is not None}), "object changed by reading it")
    # Damage is found in just the same way
    names = sorted(c10.MUTATIONS)
    i = names.index(case["mut"])
    for name in names[i:] + names[:i]:
        before = dict(o.tree)
        codes = c10.MUTATIONS[name](o, c10.Digits(case["r"]))
        if codes is not None:
            break
        o.tree = before
    else:
        raise HarnessError("no mutation applies")
    objdir = objgen.write(os.path.join(d, "damaged"), o.tree)
    passed, v = ocfl.Object(lax_digests=True).validate(objdir=objdir)
    check(passed is False, "damage (%s) not detected with lax digests", name)
    got = errors(v)
    check(got and (not codes or got & codes), "damage (%s) reported with lax digests as %s, expected one of %s", name, sorted(got), sorted(codes))
    if name in c10.STRUCTURAL:
        passed, v = ocfl.Object(lax_digests=True).validate(objdir=objdir, check_digests=False)
        check(passed is False, "damage (%s) not detected with lax digests without digest checks", name)
    ctx.event(name)
    if not strict_ok:
        ctx.nontrivial()


# ---------------------------------------------------------------- storage roots and tools

@st.composite
def route_cases(draw):
    return {"obj": draw(objgen.cases(need_content=True, max_versions=3, algs=draw(st.sampled_from([EXTENSION, EXTENSION, gen.FIXITY_DIGESTS])))),
            "damage": draw(st.sampled_from([True, True, False])), "mut": draw(st.sampled_from(["flip", "truncate", "append", "swap", "delete_content"])), "r": draw(st.integers(0, 10000))}


def routes(case, ctx):
    obj = case["obj"]
    o = c10.Obj(obj)
    d = ctx.dir()
    strict_ok = all(a in ("sha512", "sha256") for a in [obj["alg"]] + [obj["valg"][k] for k in o.invs if k != o.n - 1])
    root = os.path.join(d, "root")
    ocfl.StorageRoot(root=root, layout_name="0003-hash-and-id-n-tuple-storage-layout").initialize()
    src = objgen.write(os.path.join(d, "obj"), o.tree)
    empty = read_tree(root)
    if obj["alg"] not in ("sha512", "sha256"):      # earlier inventories are not looked at
        bad = attempt(ocfl.StorageRoot(root=root).add, src)
        check(isinstance(bad, Raised) and isinstance(bad.exc, ocfl.StorageRootException), "object with algorithms %s added to storage root without lax digests: %s", [obj["alg"]] + obj["valg"], bad)
        check(read_tree(root) == empty, "storage root changed by refused addition")
    if None in o.tree.values():         # empty directories are not copied
        oid, objpath = obj["id"], ocfl.StorageRoot(root=root).object_path(obj["id"])
        os.renames(src, os.path.join(root, objpath))
    else:
        oid, objpath = ocfl.StorageRoot(root=root, lax_digests=True).add(src)
    check(oid == obj["id"], "object added as %r, its identifier is %r", oid, obj["id"])
    path = os.path.join(root, objpath)
    damaged = case["damage"] and c10.MUTATIONS[case["mut"]](o, c10.Digits(case["r"])) is not None
    if damaged:
        objgen.write(path, o.tree)
        for p in {p for p, x in read_tree(path).items() if x is not None} - set(o.tree):
            os.remove(os.path.join(path, p))
    for lax_digests in (False, True):
        want = not damaged and (lax_digests or strict_ok)
        option = ["--lax-digests"] if lax_digests else []
        sr = ocfl.StorageRoot(root=root, lax_digests=lax_digests)
        passed = sr.validate()
        check(bool(passed) == want, "validation of storage root %s says %s, expected %s; algorithms %s; %s", "with lax digests" if lax_digests else "", passed, want, [obj["alg"]] + obj["valg"], sr.errors)
        check((sr.num_objects, sr.good_objects) == (1, int(want)), "validation of storage root counts %s, expected %s", (sr.num_objects, sr.good_objects), (1, int(want)))
        for argv in [["ocfl-validate.py", root] + option, ["ocfl-validate.py", path] + option,
                     ["ocfl-root.py", "validate", "--root", root, "--validate-objects", "--check-digests"] + option,
                     ["ocfl-root.py", "validate-object", "--root", root, "--id=" + oid] + option]:
            r = Run(*argv)
            check((r.code == 0) == want, "%s, expected %s", r, "success" if want else "failure")
        r = Run("ocfl-validate.py", path + "/inventory.json", *option)
        want = lax_digests or obj["alg"] in ("sha512", "sha256")
        check((r.code == 0) == want, "%s, expected %s", r, "success" if want else "failure")
    check(list(ocfl.StorageRoot(root=root, lax_digests=True).list_objects()) == [(objpath, oid)], "listing with lax digests wrong")
    ctx.event("damaged" if damaged else "sound")
    if not strict_ok:
        ctx.nontrivial()


PARTS = [Part("blocks", block_cases, blocks, 4000), Part("lax", lax_cases, lax, 2500), Part("routes", route_cases, routes, 500)]
