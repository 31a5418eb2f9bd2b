"""C13: validation always comes to a verdict, and the right one, whatever is on disk."""
import copy
import json
import os

import ocfl
from hypothesis import strategies as st
from ocfl.inventory_validator import InventoryValidator
from ocfl.validator import Validator

import objgen
import ref
from core import Part, check, read_tree
from props import c12

JUNK = [b"", b"\n", b"x", b"\x00", b"\xff\xfe", b"{}", b"[]", b"null", b"1", b'"s"', b"{", b"[" * 3000, b'{"id": "x"}', b"NaN", b"1e999", b"\xef\xbb\xbf{}",
        b'{"versions": {"v1": null}}', b"9" * 5000, b"ocfl_object_1.0\n", b"ocfl_object_1.1\n", b"ocfl_object_1.0", b'{"a": "\\ud800"}']
NAMES = ["x", "v1", "v2", "v3", "v01", "v0", "v00", "v0001", "v9", "v10", "v1x", "V1", "content", "inventory.json", "inventory.json.sha512", "inventory.json.sha256", "inventory.json.md5", "extensions", "logs",
         "0=ocfl_object_1.0", "0=ocfl_object_1.1", "0=ocfl_object_2.0", "0=", "v1/content", "v1/content/x", "v2/content/x", "v1/inventory.json", "v1/x",
         "v2/inventory.json.sha512", "extensions/x", "extensions/0001-digest-algorithms/x", "logs/x/y", "1=x", "é", "v1/content/a/b"]
HOW = ["json", "json", "json", "json-nosidecar", "json-bytes", "junk", "delete", "rename", "add", "adddir", "adddir", "swap", "bytes", "rmtree"]


@st.composite
def cases(draw):
    return {"obj": draw(objgen.cases(max_versions=3)),
            "muts": [[draw(st.sampled_from(HOW)), draw(st.integers(0, 10 ** 6)), draw(st.integers(0, 10 ** 6)),
                      draw(st.integers(0, 10 ** 6)), draw(st.sampled_from(c12.EDITS)), draw(st.sampled_from(c12.SCALARS))] for _ in range(draw(st.integers(0, 3)))],
            "opts": {"check_digests": draw(st.booleans()), "lax_digests": draw(st.booleans()), "log_warnings": draw(st.booleans()),
                     "log_errors": draw(st.booleans()), "force_spec_version": draw(st.sampled_from([None, "1.0", "1.1"]))}}


def put(tree, path, data):
    """Add to tree, removing what is in the way."""
    segs = path.split("/")
    for i in range(1, len(segs)):
        tree.pop("/".join(segs[:i]), None)
    for p in list(tree):
        if p.startswith(path + "/"):
            del tree[p]
    tree[path] = data


def mutate(tree, mut):
    how, a, b, c, edit, val = mut
    files = sorted(p for p in tree if tree[p] is not None)
    if not files:
        return
    invs = [p for p in files if p.endswith("inventory.json")]
    ctl = [p for p in files if "inventory.json" in p or p.startswith("0=")]
    f = (ctl or files)[b % len(ctl or files)] if a % 4 else files[b % len(files)]
    if how.startswith("json") and invs:
        f = invs[b % len(invs)]
        old = tree[f]
        try:
            inv = json.loads(old)
        except ValueError:
            return
        if how == "json-bytes":
            i = c % (len(old) + 1)
            new = [old[:i] + old[i + 1:], old[:i] + b"x" + old[i:], old[:i], old[:i] + b"0" + old[i + 1:], old[:i] + b'"' + old[i:]][a % 5]
        else:
            c12.apply_edits(inv, [[edit, a, c, val]])
            new = json.dumps(inv).encode()
        for p in invs:
            if tree[p] == old and (p == f or c % 5):     # keep the copy in the head version in step
                tree[p] = new
                if how != "json-nosidecar":
                    for s in files:
                        if s.startswith(p + "."):
                            alg = s[len(p) + 1:]
                            if alg in ref.HEXLEN:
                                tree[s] = (ref.digest(alg, new) + " inventory.json\n").encode()
    elif how == "junk":
        tree[f] = JUNK[c % len(JUNK)]
    elif how == "delete":
        del tree[f]
    elif how == "rename":
        put(tree, NAMES[c % len(NAMES)], tree.pop(f))
    elif how == "add":
        put(tree, NAMES[c % len(NAMES)], JUNK[b % len(JUNK)])
    elif how == "adddir":
        if not any(p == NAMES[c % len(NAMES)] or p.startswith(NAMES[c % len(NAMES)] + "/") for p in tree):
            put(tree, NAMES[c % len(NAMES)], None)
    elif how == "swap":
        g = files[c % len(files)]
        tree[f], tree[g] = tree[g], tree[f]
    elif how == "bytes":
        d = tree[f]
        i = c % (len(d) + 1)
        tree[f] = [d[:i] + d[i + 1:], d[:i] + b"a" + d[i:], d[:i], d + b"\n", d[:i] + b"\xff" + d[i:]][a % 5]
    elif how == "rmtree":
        top = f.split("/")[0]
        for p in list(tree):
            if p == top or p.startswith(top + "/"):
                del tree[p]


def normalize(tree):
    """Drop entries for empty directories that are not empty any longer."""
    for p in [p for p in tree if tree[p] is None]:
        if any(q.startswith(p + "/") for q in tree):
            del tree[p]


def ambiguous(tree, problems):
    """Points on which the specification's text leaves the verdict open."""
    for p in problems:
        if "sidecar" in p and " is b" in p or "manifest lacks content" in p or "declaration content" in p and "\\r" in p:
            return True
    invs = []
    for p in tree:
        if p.endswith("inventory.json") and tree[p] is not None and p.count("/") <= 1:
            try:
                inv = json.loads(tree[p].decode("utf-8"))
            except (ValueError, RecursionError):
                continue
            if c12.ambiguous(inv):
                return True
            invs.append((p, inv))
    # contentDirectory given in some inventories only, with the default value
    got = {isinstance(inv, dict) and "contentDirectory" in inv for _, inv in invs}
    if len(got) > 1:
        return True
    return False


def verdict(case, ctx):
    tree = objgen.make(case["obj"])
    for m in case["muts"]:
        mutate(tree, m)
        normalize(tree)
    objdir = objgen.write(os.path.join(ctx.dir(), "obj"), tree)
    passed, v = ocfl.Object().validate(objdir=objdir)
    errors = sorted(c for c in v.log.codes if c.startswith("E"))
    check(passed is True or passed is False, "result %r", passed)
    check(passed == (not errors) and passed == (v.log.num_errors == 0), "verdict %s with errors %s", passed, errors)
    check(isinstance(v.status_str(), str), "status_str")
    problems, _ = ref.check_object(tree, need_version_inventories=False, strict=False)
    if ambiguous(tree, problems):
        ctx.event("ambiguous")
    else:
        check(passed == (not problems), "verdict %s %s, the specification says %s", passed, errors, problems[:3] or "valid")
        ctx.event("valid" if passed else "invalid")
    # Any options: no exception
    v = Validator(**case["opts"])
    r = v.validate_object(objdir)
    check(r is True or r is False, "result %r with options", r)
    check(isinstance(v.status_str(prefix="x"), str), "status_str")
    if case["opts"]["log_errors"]:
        check(bool([m for m in v.log.messages if m.startswith("[E")]) == (not r), "messages do not match verdict")
    for p in sorted(tree):
        if p.endswith("inventory.json") and tree[p] is not None:
            r, v = ocfl.Object().validate_inventory(os.path.join(objdir, p))
            check(r is True or r is False, "validate_inventory result %r", r)
            break
    check(read_tree(objdir, dirs=True) == tree, "validation changed the object")
    ctx.nontrivial(bool(case["muts"]))


# ---------------------------------------------------------------- arbitrary JSON

KEYS = ["id", "type", "digestAlgorithm", "head", "contentDirectory", "manifest", "versions", "fixity", "v1", "v2", "v01", "state", "created", "message", "user", "name", "address",
        "a" * 64, "A" * 64, "0" * 128, "md5", "sha512"]
json_values = st.recursive(st.sampled_from([x for x in c12.SCALARS if not isinstance(x, (list, dict))] + ["a" * 64, "0" * 128, 1e400, -1, "v1/content/b"]),
                           lambda ch: st.one_of(st.lists(ch, max_size=3), st.dictionaries(st.sampled_from(KEYS), ch, max_size=5)), max_leaves=25)


def json_cases():
    skeleton = st.fixed_dictionaries({}, optional={
        "id": st.one_of(st.just("info:x"), json_values), "type": st.one_of(st.just("https://ocfl.io/1.1/spec/#inventory"), json_values),
        "digestAlgorithm": st.one_of(st.sampled_from(["sha256", "sha512"]), json_values), "head": st.one_of(st.just("v1"), json_values),
        "contentDirectory": json_values, "manifest": st.one_of(st.dictionaries(st.sampled_from(["a" * 64, "A" * 64, "0" * 128, "x"]), json_values, max_size=3), json_values),
        "versions": st.one_of(st.dictionaries(st.sampled_from(["v1", "v2", "v01", "v02", "x"]), json_values, max_size=3), json_values),
        "fixity": st.one_of(st.dictionaries(st.sampled_from(["md5", "sha512", "x"]), json_values, max_size=3), json_values)})
    return st.fixed_dictionaries({"inv": st.one_of(skeleton, skeleton, json_values), "lax": st.booleans()})


def any_json(case, ctx):
    iv = InventoryValidator(lax_digests=case["lax"])
    got = iv.validate(copy.deepcopy(case["inv"]))
    check(got is (iv.log.num_errors == 0), "result %r with %d errors", got, iv.log.num_errors)
    if not case["lax"] and not c12.ambiguous(case["inv"]):
        problems = ref.check_inventory(case["inv"])
        check(got is (not problems), "result %r, the specification says %s", got, problems[:3] or "valid")
    ctx.event("valid" if got else "invalid")
    ctx.nontrivial(isinstance(case["inv"], dict) and len(case["inv"]) > 3)


PARTS = [
    Part("verdict", cases, verdict, 8000),
    Part("any_json", json_cases, any_json, 8000),
]
