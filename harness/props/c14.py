"""C14: the verdict depends only on what the object is, not on where or how it is stored or looked at."""
import json
import os
import random
import zipfile

import fsspec
import ocfl
from hypothesis import strategies as st
from ocfl.validator import Validator

import objgen
import ref
from core import Part, check, read_tree
from props import c12, c13

DIGEST_CODES = {"E092a", "E093a", "E060", "E061", "E058b"}


@st.composite
def cases(draw):
    return {"obj": draw(objgen.cases(max_versions=3)),
            "muts": [[draw(st.sampled_from(c13.HOW)), draw(st.integers(0, 10 ** 6)), draw(st.integers(0, 10 ** 6)),
                      draw(st.integers(0, 10 ** 6)), draw(st.sampled_from(c12.EDITS)), draw(st.sampled_from(c12.SCALARS))] for _ in range(draw(st.sampled_from([0, 0, 1, 1, 2])))],
            "seed": draw(st.integers(0, 1000))}


def all_dirs(tree):
    out = set()
    for p, data in tree.items():
        segs = p.split("/")
        for i in range(1, len(segs)):
            out.add("/".join(segs[:i]))
        if data is None:
            out.add(p)
    return out


def outcome(v, passed):
    return [passed, sorted(v.log.codes)]


def place(case, ctx):
    d = ctx.dir()
    rnd = random.Random(case["seed"])
    tree = objgen.make(case["obj"])
    for m in case["muts"]:
        c13.mutate(tree, m)
        c13.normalize(tree)
    objdir = objgen.write(os.path.join(d, "obj"), tree)
    base_v = Validator()
    base = outcome(base_v, base_v.validate_object(objdir))

    def same(got, what):
        check(got == base, "%s: %s, but %s in a local directory", what, got, base)
    # Logging flags
    for lw, le in ((True, True), (False, False)):
        v = Validator(log_warnings=lw, log_errors=le)
        same(outcome(v, v.validate_object(objdir)), "log flags %s %s" % (lw, le))
    # Again with the same Validator, after another object
    good = objgen.write(os.path.join(d, "good"), objgen.make(case["obj"]))
    v = Validator()
    v.validate_object(good)
    n = v.log.num_errors
    check(n == 0, "valid object has errors %s", sorted(v.log.codes))
    p = v.validate_object(objdir)
    check(p == base[0] and v.log.num_errors == base_v.log.num_errors, "second object validated: %s with %d errors, expected %s with %d", p, v.log.num_errors, base[0], base_v.log.num_errors)
    p = v.validate_object(good)
    check(p is True and v.log.num_errors == base_v.log.num_errors, "validity of an object affected by the object validated before")
    # Other ways to give the path
    cwd = os.getcwd()
    os.chdir(d)
    try:
        for path in ("obj", "./obj", "obj/", "../s/obj"):
            v = Validator()
            same(outcome(v, v.validate_object(path)), "path %r" % path)
    finally:
        os.chdir(cwd)
    passed, v = ocfl.Object(path=objdir).validate()
    same(outcome(v, passed), "open object filesystem")
    # Written in another order
    items = list(tree.items())
    rnd.shuffle(items)
    objdir2 = objgen.write(os.path.join(d, "shuffled"), dict(items))
    passed, v = ocfl.Object().validate(objdir2)
    same(outcome(v, passed), "other order of files")
    # In a zip file, with directory entries
    zf = os.path.join(d, "o.zip")
    with zipfile.ZipFile(zf, "w") as z:
        if case["seed"] % 2:
            for x in sorted(all_dirs(tree)):
                z.writestr(x + "/", b"")
        for p, data in items:
            if data is None:
                if not case["seed"] % 2:
                    z.writestr(p + "/", b"")
            else:
                z.writestr(p, data)
    passed, v = ocfl.Object().validate("zip://" + zf)
    same(outcome(v, passed), "zip file")
    # In a memory filesystem
    mem = fsspec.filesystem("memory")
    top = "/m%d" % ctx.n
    try:
        mem.makedirs(top, exist_ok=True)
        for p, data in items:
            if data is None:
                mem.makedirs(top + "/" + p, exist_ok=True)
            else:
                mem.pipe_file(top + "/" + p, data)
        passed, v = ocfl.Object().validate("memory://" + top)
        same(outcome(v, passed), "memory filesystem")
    finally:
        mem.rm(top, recursive=True)
    # Without digest checks
    v = Validator(check_digests=False)
    p = v.validate_object(objdir)
    codes, full = set(v.log.codes), set(base[1])
    check(codes <= full, "without digest checks %s reported that are not with them", sorted(codes - full))
    check(full - codes <= DIGEST_CODES, "%s not reported without digest checks", sorted(full - codes))
    check(p == (not any(c[0] == "E" for c in codes)), "verdict %s with %s", p, sorted(codes))
    check(read_tree(objdir, dirs=True) == tree, "validation changed the object")
    ctx.event("valid" if base[0] else "invalid")
    ctx.nontrivial(any(case["obj"]["hist"]))


def reorder(j, rnd):
    if isinstance(j, dict):
        ks = list(j)
        rnd.shuffle(ks)
        return {k: reorder(j[k], rnd) for k in ks}
    if isinstance(j, list):
        j = [reorder(x, rnd) for x in j]
        if all(isinstance(x, str) for x in j):
            rnd.shuffle(j)
        return j
    return j


def reformat(case, ctx):
    """Inventories written with another order of keys and paths and other white space (and sidecars to match)."""
    rnd = random.Random(case["seed"])
    tree = objgen.make(case["obj"])
    for m in case["muts"]:
        if m[0] in ("json", "add", "adddir", "rename", "delete", "swap"):
            c13.mutate(tree, m)
            c13.normalize(tree)
    new = dict(tree)
    done = {}
    for p in sorted(tree):
        if p.endswith("inventory.json") and p.count("/") <= 1 and tree[p] is not None:
            if tree[p] not in done:
                try:
                    j = json.loads(tree[p].decode("utf-8"))
                except ValueError:
                    continue
                how = {"indent": rnd.choice([None, 0, 3]), "separators": rnd.choice([(",", ":"), (", ", " : ")])}
                j = reorder(j, rnd)
                try:
                    done[tree[p]] = json.dumps(j, ensure_ascii=rnd.random() < 0.5, **how).encode("utf-8")
                except UnicodeEncodeError:  # a lone surrogate can only be written as an escape
                    done[tree[p]] = json.dumps(j, **how).encode("utf-8")
            new[p] = done[tree[p]]
            for s in tree:
                if s.startswith(p + ".") and tree[s] is not None and s[len(p) + 1:] in ref.HEXLEN:
                    alg = s[len(p) + 1:]
                    if tree[s].split()[:1] == [ref.digest(alg, tree[p]).encode()]:
                        new[s] = tree[s].replace(ref.digest(alg, tree[p]).encode(), ref.digest(alg, new[p]).encode())
                    elif tree[s].split()[:1] == [ref.digest(alg, tree[p]).upper().encode()]:
                        new[s] = tree[s].replace(ref.digest(alg, tree[p]).upper().encode(), ref.digest(alg, new[p]).upper().encode())
    a = objgen.write(os.path.join(ctx.dir(), "a"), tree)
    b = objgen.write(os.path.join(ctx.dir(), "b"), new)
    pa, va = ocfl.Object().validate(a)
    pb, vb = ocfl.Object().validate(b)
    if {"E101a", "E095a"} & set(va.log.codes) & set(vb.log.codes):
        # A path listed twice: what else is reported depends on which entry is taken, the verdict does not
        check(not pa and not pb, "passed with a path listed twice")
    else:
        check(outcome(va, pa) == outcome(vb, pb), "%s, but %s with inventories written differently", outcome(va, pa), outcome(vb, pb))
    ctx.event("valid" if pa else "invalid")
    ctx.nontrivial(new != tree)


PARTS = [
    Part("place", cases, place, 2500),
    Part("reformat", cases, reformat, 2500),
]
