"""C12: every breach of the inventory rules is reported, and nothing else is."""
import copy
import json
import os

import ocfl
from hypothesis import strategies as st
from ocfl.inventory_validator import InventoryValidator

import objgen
import ref
from core import HarnessError, Part, check
from props.c10 import Digits, pick


def states(inv):
    return [(v, inv["versions"][v]["state"]) for v in inv["versions"]]


def with_state(inv, r, need=1):
    """A version whose state has at least need digests."""
    vs = [v for v, s in states(inv) if len(s) >= need]
    return vs[r % len(vs)] if vs else None


def logical(inv, r):
    """(state, digest, index) of some logical path."""
    every = [(s, d, i) for v, s in states(inv) for d in s for i in range(len(s[d]))]
    return every[r % len(every)] if every else None


def mpath(inv, r):
    every = [(d, i) for d in inv["manifest"] for i in range(len(inv["manifest"][d]))]
    return every[r % len(every)] if every else None


def bad_path(r, rest):
    """A path with an element ".", ".." or "" first, last or between."""
    bad = [".", "..", ""][r % 3]
    parts = rest.split("/")
    at = r % (len(parts) + 1)
    if bad == "" and at in (0, len(parts)):
        bad = ".."
    if r % 2 and at < len(parts) and bad:
        parts[at] = bad
    else:
        parts.insert(at, bad)
    return "/".join(parts)


NOT_STR = [None, 1, True, [], {}, ["x"], 1.5]
NOT_OBJ = [None, 1, "x", [], True, [["a", "b"]]]
NOT_LIST = [None, "v1/content/a", {}, 1, True]
BAD_SEG = ["..", ".", "a/../b", "a/./b", "a//b", "../a", "./a", "a/.."]


# Each takes (inv, r, case), changes inv and gives the set of codes one of which must be
# reported, or None if it does not apply.

def i_no_id(inv, r, case):
    del inv["id"]
    return {"E036a"}


def i_bad_id(inv, r, case):
    inv["id"] = ([""] + NOT_STR)[r % 8]
    return {"E037a"}


def i_no_type(inv, r, case):
    del inv["type"]
    return {"E036b"}


def i_type_not_string(inv, r, case):
    inv["type"] = NOT_STR[r % 7]
    return {"E038d"}


def i_bad_type(inv, r, case):
    good = inv["type"]
    inv["type"] = ["", "bad", good + "x", "x" + good, good[:-1], good.replace("https", "http"), good + "\n", good.replace("#inventory", ""),
                   good.upper(), "https://ocfl.io/1.x/spec/#inventory"][r % 10]
    return {"E038b"}


def i_unknown_spec(inv, r, case):
    inv["type"] = "https://ocfl.io/%s/spec/#inventory" % ["1.2", "0.9", "2.0", "10.1", "11.0"][r % 5]
    return {"E038c"}


def i_no_alg(inv, r, case):
    del inv["digestAlgorithm"]
    return {"E036c"}


def i_bad_alg(inv, r, case):
    inv["digestAlgorithm"] = (["md5", "sha1", "SHA512", "sha-512", "", "blake2b-512", "sha512 ", "sha384"] + NOT_STR)[r % 15]
    return {"E025a"}


def i_wrong_alg(inv, r, case):
    """The other algorithm, so that all the digests have the wrong length."""
    if not inv["manifest"]:
        return None
    inv["digestAlgorithm"] = {"sha512": "sha256", "sha256": "sha512"}[inv["digestAlgorithm"]]
    return {"E025b"}


def i_cd_slash(inv, r, case):
    inv["contentDirectory"] = (["a/b", "/", "/a", "a/", "../x", ""] + NOT_STR)[r % 13]
    return {"E017"}


def i_cd_dots(inv, r, case):
    inv["contentDirectory"] = [".", ".."][r % 2]
    return {"E018"}


def i_cd_other(inv, r, case):
    if not inv["manifest"]:
        return None
    inv["contentDirectory"] = "other-cd"
    return {"E042c"}


def i_no_head(inv, r, case):
    del inv["head"]
    return {"E036d"}


def i_bad_head(inv, r, case):
    n = len(inv["versions"])
    inv["head"] = ([objgen.vdir(case, n), objgen.vdir(case, n - 2) if n > 1 else "v0", inv["head"] + " ", inv["head"].upper(), ""]
                   + NOT_STR + [n])[r % 13]
    return {"E040"}


def i_no_manifest(inv, r, case):
    del inv["manifest"]
    return {"E041a"}


def i_manifest_not_object(inv, r, case):
    inv["manifest"] = NOT_OBJ[r % 6]
    return {"E041c"}


def i_no_versions(inv, r, case):
    del inv["versions"]
    return {"E041b"}


def i_versions_not_object(inv, r, case):
    inv["versions"] = NOT_OBJ[r % 6]
    return {"E044"}


def i_versions_empty(inv, r, case):
    inv["versions"] = {}
    return {"E008"}


def i_no_first_version(inv, r, case):
    v = inv["versions"].pop(objgen.vdir(case, 0))
    if r % 2:
        inv["versions"]["v0"] = v
    return {"E008", "E009", "E010"}


def i_version_gap(inv, r, case):
    n = len(inv["versions"])
    if n < 3:
        new = objgen.vdir(case, n + 1 + r % 3)
        inv["versions"][new] = copy.deepcopy(inv["versions"][objgen.vdir(case, n - 1)])
        inv["head"] = [inv["head"], new][r % 2]
    else:
        del inv["versions"][objgen.vdir(case, 1 + r % (n - 2))]
    return {"E010"}


def i_version_padding(inv, r, case):
    """One version with another padding than the rest."""
    n = len(inv["versions"])
    k = r % n
    pad = [0, 2, 3, 4][(r // 7) % 4]
    old, new = objgen.vdir(case, k), "v%0*d" % (pad, k + 1) if pad else "v%d" % (k + 1)
    if old == new or n == 1:
        return None
    inv["versions"] = {(new if v == old else v): b for v, b in inv["versions"].items()}
    return {"E009", "E010"}


def i_padding_exceeded(inv, r, case):
    """Zero-padded version numbers that go on to the full width: the last ones have no zero."""
    width = 3 if r % 8 == 0 else 2
    vs = sorted(inv["versions"], key=lambda v: int(v[1:]))
    if len(vs) >= 10 ** (width - 1) + 3:
        return None
    new = {v: "v%0*d" % (width, int(v[1:])) for v in vs}

    def moved(block):
        return {d: [new[p.split("/")[0]] + "/" + p.split("/", 1)[1] for p in ps] for d, ps in block.items()}
    inv["versions"] = {new[v]: inv["versions"][v] for v in vs}
    inv["manifest"] = moved(inv["manifest"])
    if "fixity" in inv:
        inv["fixity"] = {a: moved(b) for a, b in inv["fixity"].items()}
    for n in range(len(vs) + 1, 10 ** (width - 1) + 1 + r % 3):
        inv["head"] = "v%0*d" % (width, n)
        inv["versions"][inv["head"]] = copy.deepcopy(inv["versions"][new[vs[-1]]])
    return {"E011"}


def i_version_name(inv, r, case):
    name = ["1", "V1", "version1", "v", "v-1", "v1.0", "", "v0", "v00", "vv1", "v1 "][r % 11]
    inv["versions"][name] = copy.deepcopy(list(inv["versions"].values())[0])
    return {"E010", "E009", "E046b"}


def i_no_created(inv, r, case):
    del pick_version(inv, r)["created"]
    return {"E048"}


def pick_version(inv, r):
    vs = list(inv["versions"])
    return inv["versions"][vs[r % len(vs)]]


def i_created_not_string(inv, r, case):
    pick_version(inv, r)["created"] = [None, 1, True, [], {}, 1546300800.0][r % 6]
    return {"E049d"}


def i_bad_created(inv, r, case):
    bad = [("2019-01-01T02:03:04", "E049a"), ("2019-01-01", "E049a"), ("2019", "E049a"), ("2019-01-01T02:03Z", "E049b"),
           ("2019-01-01T02:03+01:00", "E049b"), ("", "E049c"), ("2019-13-01T02:03:04Z", "E049c"), ("2019-01-32T02:03:04Z", "E049c"),
           ("2019-02-29T02:03:04Z", "E049c"), ("2019-01-01T24:03:04Z", "E049c"), ("2019-01-01T02:60:04Z", "E049c"),
           ("2019-01-01 02:03:04Z", "E049c"), ("2019-01-01T02:03:04Zx", "E049c"), ("x2019-01-01T02:03:04Z", "E049c"),
           ("19-01-01T02:03:04Z", "E049c"), ("2019-01-01T02:03:04+1:00", "E049c"), ("2019-01-01T02:03:04+0100", "E049c"),
           ("Tue, 1 Jan 2019 02:03:04 GMT", "E049c"), ("2019-01-01T02:03:04Z\n", "E049c"), ("2019-1-1T02:03:04Z", "E049c"),
           ("2019-01-01T02:03:04.Z", "E049c"), ("2019-01-01T02:03:04+24:00", "E049c"), ("2019-01-01T02:03:04+01:60", "E049c"),
           ("2019-W01-1T02:03:04Z", "E049c"), ("٢٠١٩-01-01T02:03:04Z", "E049c"), ("2019-00-10T02:03:04Z", "E049c"),
           ("2019-04-31T02:03:04Z", "E049c"), ("1900-02-29T00:00:00Z", "E049c")]
    pick_version(inv, r)["created"], code = bad[(r // 11) % len(bad)]
    return {code}


def i_no_state(inv, r, case):
    del pick_version(inv, r)["state"]
    return {"E048c"}


def i_state_not_object(inv, r, case):
    pick_version(inv, r)["state"] = NOT_OBJ[r % 6]
    return {"E050c"}


def i_version_not_object(inv, r, case):
    vs = list(inv["versions"])
    inv["versions"][vs[r % len(vs)]] = NOT_OBJ[(r // 3) % 6]
    return {"E048"}


def i_message_not_string(inv, r, case):
    pick_version(inv, r)["message"] = NOT_STR[r % 7]
    return {"E094"}


def i_user_not_object(inv, r, case):
    pick_version(inv, r)["user"] = NOT_OBJ[r % 6]
    return {"E054a"}


def i_user_no_name(inv, r, case):
    pick_version(inv, r)["user"] = [{}, {"address": "mailto:a@b"}, {"Name": "x"}][r % 3]
    return {"E054b"}


def i_user_name_not_string(inv, r, case):
    pick_version(inv, r)["user"] = {"name": NOT_STR[r % 7]}
    return {"E054b"}


def i_user_address_not_string(inv, r, case):
    pick_version(inv, r)["user"] = {"name": "A", "address": NOT_STR[r % 7]}
    return {"E054c"}


def i_unused_digest(inv, r, case):
    """A manifest entry that no state refers to."""
    alg = inv["digestAlgorithm"]
    d = ref.digest(alg, b"never used %d" % r)
    vs = list(inv["versions"])
    inv["manifest"][d] = [vs[r % len(vs)] + "/" + inv.get("contentDirectory", "content") + "/never-used"]
    return {"E107"}


def i_state_digest_missing(inv, r, case):
    """A state entry whose digest is not in the manifest."""
    d = ref.digest(inv["digestAlgorithm"], b"never stored %d" % r)
    pick_version(inv, r)["state"][d] = ["never-stored"]
    return {"E050a", "E050f"}


def i_manifest_digest_missing(inv, r, case):
    d = pick(inv["manifest"], r)
    if d is None:
        return None
    del inv["manifest"][d]
    return {"E050a", "E050f"}


def i_state_digest_case(inv, r, case):
    """Digest in a state written with other case than in the manifest."""
    v = with_state(inv, r)
    if v is None:
        return None
    s = inv["versions"][v]["state"]
    d = pick(s, r)
    other = d.upper() if d != d.upper() else d.lower()
    if other in s or d == other:
        return None
    s[other] = s.pop(d)
    return {"E050f"}


def i_manifest_digest_repeated(inv, r, case):
    """The same digest twice in different case."""
    lc = [d for d in inv["manifest"] if d.upper() != d.lower()]
    d = pick(lc, r)
    if d is None:
        return None
    other = d.upper() if d != d.upper() else d.lower()
    vs = list(inv["versions"])
    inv["manifest"][other] = [vs[0] + "/" + inv.get("contentDirectory", "content") + "/twice-stored"]
    return {"E096"}


def i_bad_digest_form(inv, r, case):
    """Digest not of the right form in manifest, with states changed to match."""
    d = pick(inv["manifest"], r)
    if d is None:
        return None
    bad = [d[:-1], d + "0", "g" + d[1:], "", " " + d[1:], d[:-1] + " ", d + "\n", "0x" + d[2:], d[:64] if len(d) == 128 else d + d, d[:-1] + "٢"][r % 10]
    inv["manifest"][bad] = inv["manifest"].pop(d)
    if r % 3:
        for _, s in states(inv):
            if d in s:
                s[bad] = s.pop(d)
    return {"E025b"}


def i_bad_state_digest_form(inv, r, case):
    v = with_state(inv, r)
    if v is None:
        return None
    s = inv["versions"][v]["state"]
    d = pick(s, r)
    s[[d[:-1], d + "0", "z" + d[1:], "", d + "\n", "x"][r % 6]] = s.pop(d)
    return {"E050d"}


def i_manifest_not_list(inv, r, case):
    d = pick(inv["manifest"], r)
    if d is None:
        return None
    inv["manifest"][d] = NOT_LIST[r % 5]
    return {"E092"}


def i_state_not_list(inv, r, case):
    v = with_state(inv, r)
    if v is None:
        return None
    s = inv["versions"][v]["state"]
    s[pick(s, r)] = ["x", None, {}, 1, True][r % 5]
    return {"E050e"}


def i_content_path_not_string(inv, r, case):
    p = mpath(inv, r)
    if p is None:
        return None
    inv["manifest"][p[0]][p[1]] = NOT_STR[r % 7]
    return {"E042a"}


def i_content_path_slash(inv, r, case):
    p = mpath(inv, r)
    if p is None:
        return None
    old = inv["manifest"][p[0]][p[1]]
    inv["manifest"][p[0]][p[1]] = ["/" + old, old + "/", "/", "//" + old, "/etc/passwd"][r % 5]
    return {"E100"}


def i_content_path_dots(inv, r, case):
    p = mpath(inv, r)
    if p is None:
        return None
    v, cd, rest = inv["manifest"][p[0]][p[1]].split("/", 2)
    inv["manifest"][p[0]][p[1]] = v + "/" + cd + "/" + (bad_path(r, rest) if r % 2 else BAD_SEG[r % 8])
    return {"E099"}


def i_content_path_no_version(inv, r, case):
    p = mpath(inv, r)
    if p is None:
        return None
    v, cd, rest = inv["manifest"][p[0]][p[1]].split("/", 2)
    inv["manifest"][p[0]][p[1]] = [rest.replace("/", "_"), "x" + v + "/" + cd + "/" + rest, cd, v, v + "/" + cd, "a/b/c",
                                   "v/" + cd + "/" + rest, "../" + v + "/" + cd + "/" + rest][r % 8]
    return {"E042a"}


def i_content_path_other_version(inv, r, case):
    p = mpath(inv, r)
    if p is None:
        return None
    v, cd, rest = inv["manifest"][p[0]][p[1]].split("/", 2)
    n = len(inv["versions"])
    inv["manifest"][p[0]][p[1]] = [objgen.vdir(case, n), "v0", objgen.vdir(case, n + 20), "v0001000"][r % 4] + "/" + cd + "/" + rest
    return {"E042b"}


def i_content_path_other_dir(inv, r, case):
    p = mpath(inv, r)
    if p is None:
        return None
    v, cd, rest = inv["manifest"][p[0]][p[1]].split("/", 2)
    inv["manifest"][p[0]][p[1]] = v + "/" + [cd + "x", "x" + cd, cd.swapcase() if cd.swapcase() != cd else "q", "other"][r % 4] + "/" + rest
    return {"E042c"}


def i_content_path_twice(inv, r, case):
    p = mpath(inv, r)
    if p is None:
        return None
    d = pick(inv["manifest"], r // 7)
    inv["manifest"][d].append(inv["manifest"][p[0]][p[1]])
    return {"E101a"}


def i_content_path_conflict(inv, r, case):
    p = mpath(inv, r)
    if p is None:
        return None
    d = pick(inv["manifest"], r // 7)
    inv["manifest"][d].append(inv["manifest"][p[0]][p[1]] + ["/x", "/x/y/z"][r % 2])
    return {"E101b"}


def i_logical_path_not_string(inv, r, case):
    p = logical(inv, r)
    if p is None:
        return None
    p[0][p[1]][p[2]] = NOT_STR[r % 7]
    return {"E052"}


def i_logical_path_dots(inv, r, case):
    p = logical(inv, r)
    if p is None:
        return None
    p[0][p[1]][p[2]] = (BAD_SEG + [""])[r % 9] if r % 2 else bad_path(r, p[0][p[1]][p[2]])
    return {"E052"}


def i_logical_path_slash(inv, r, case):
    p = logical(inv, r)
    if p is None:
        return None
    p[0][p[1]][p[2]] = ["/a", "a/", "/", "//", "a/b/"][r % 5]
    return {"E053"}


def i_logical_path_twice(inv, r, case):
    p = logical(inv, r)
    if p is None:
        return None
    s = p[0]
    s[pick(s, r // 7)].append(s[p[1]][p[2]])
    return {"E095a"}


def i_logical_path_conflict(inv, r, case):
    p = logical(inv, r)
    if p is None:
        return None
    s = p[0]
    s[pick(s, r // 7)].append(s[p[1]][p[2]] + ["/x", "/x/y/z"][r % 2])
    return {"E095b"}


def i_fixity_not_object(inv, r, case):
    inv["fixity"] = NOT_OBJ[r % 6]
    return {"E056a", "E111"}


def i_fixity_unknown_alg(inv, r, case):
    inv.setdefault("fixity", {})[["other", "", "MD5", "sha-1", "sha384"][r % 5]] = {}
    return {"E056b"}


def i_fixity_block_not_object(inv, r, case):
    inv.setdefault("fixity", {})[["md5", "sha1", "blake2b-160"][r % 3]] = NOT_OBJ[r % 6]
    return {"E057a"}


def i_fixity_digest_form(inv, r, case):
    p = mpath(inv, r)
    if p is None:
        return None
    good = ref.digest("md5", b"x")
    inv["fixity"] = {"md5": {[good[:-1], good + "0", "z" + good[1:], "", good + "\n", good.replace(good[0], "-")][r % 6]: [inv["manifest"][p[0]][p[1]]]}}
    return {"E057b"}


def i_fixity_not_list(inv, r, case):
    inv["fixity"] = {"md5": {ref.digest("md5", b"x"): NOT_LIST[r % 5]}}
    return {"E057c"}


def i_fixity_unknown_path(inv, r, case):
    inv["fixity"] = {"sha1": {ref.digest("sha1", b"x"): [["v1/content/not-in-manifest", "", None, 1, [], {}][r % 6]]}}
    return {"E057d"}


def i_fixity_repeated(inv, r, case):
    p = mpath(inv, r)
    if p is None:
        return None
    d = ref.digest("md5", b"x")
    cp = inv["manifest"][p[0]][p[1]]
    inv["fixity"] = {"md5": {d: [cp], d.upper(): [cp]}}
    return {"E097"}


MUTATIONS = {f.__name__[2:]: f for f in list(globals().values()) if callable(f) and getattr(f, "__name__", "").startswith("i_")}


@st.composite
def cases(draw):
    return {"obj": draw(objgen.cases(need_content=True, max_versions=4)), "mut": draw(st.sampled_from(sorted(MUTATIONS))), "r": draw(st.integers(0, 10000))}


def mutate(case):
    """(name, mutated root inventory, codes)"""
    placed = objgen.layout_content(case["obj"])
    inv = objgen.inventory(case["obj"], len(case["obj"]["hist"]) - 1, placed)
    names = sorted(MUTATIONS)
    i = names.index(case["mut"])
    for name in names[i:] + names[:i]:
        new = copy.deepcopy(inv)
        codes = MUTATIONS[name](new, Digits(case["r"]), case["obj"])
        if codes is not None and new != inv:
            return name, new, codes
    raise HarnessError("no mutation applies")


def with_root_inventory(case, inv):
    """The object's tree with this root inventory, with sidecars to match."""
    tree = objgen.make(case)
    data = objgen.dump(case, inv)
    alg = case["alg"]
    n = len(case["hist"])
    for prefix in [""] + ([objgen.vdir(case, n - 1) + "/"] if not case["noinv"][n - 1] else []):
        tree[prefix + "inventory.json"] = data
        tree[prefix + "inventory.json." + alg] = objgen.sidecar(case, data, alg)
    return tree


def errors(v):
    return {c for c in v.log.codes if c.startswith("E")}


def broken_rule(case, ctx):
    name, inv, codes = mutate(case)
    iv = InventoryValidator()
    check(iv.validate(copy.deepcopy(inv)) is False, "breach (%s) not detected by InventoryValidator", name)
    check(errors(iv) & codes, "breach (%s) reported as %s, expected one of %s", name, sorted(errors(iv)), sorted(codes))
    objdir = objgen.write(os.path.join(ctx.dir(), "obj"), with_root_inventory(case["obj"], inv))
    passed, v = ocfl.Object().validate(objdir=objdir)
    check(passed is False, "breach (%s) not detected in object", name)
    check(errors(v) & codes, "breach (%s) in object reported as %s, expected one of %s", name, sorted(errors(v)), sorted(codes))
    passed, v = ocfl.Object().validate_inventory(os.path.join(objdir, "inventory.json"))
    check(passed is False and errors(v) & codes, "validate_inventory of breach (%s): %s %s", name, passed, sorted(errors(v)))
    ctx.event(name)
    ctx.nontrivial()


# ---------------------------------------------------------------- arbitrary edits of the JSON, judged by the reference

EDITS = ["delete", "set", "set", "rename", "copy", "append", "poke", "poke"]
SCALARS = [None, True, 0, 1, "", "a", "v1", "v2", "v3", "content", "sha512", "sha256", "md5", "/", "..", "a/b", "v1/content/a", "v1/content", "https://ocfl.io/1.1/spec/#inventory",
           "https://ocfl.io/1.0/spec/#inventory", "2019-01-01T00:00:00Z", "2019-01-01", [], {}, ["a"], {"a": "b"}, [["a"]], {"v1": {}}]


@st.composite
def edit_cases(draw):
    n = draw(st.integers(1, 3))
    return {"obj": draw(objgen.cases(need_content=True, max_versions=3)),
            "edits": [[draw(st.sampled_from(EDITS)), draw(st.integers(0, 10 ** 6)), draw(st.integers(0, 10 ** 6)), draw(st.sampled_from(SCALARS))] for _ in range(n)]}


def nodes(j, path=()):
    """Every (container, key, path) in the JSON value."""
    out = []
    if isinstance(j, dict):
        for k in j:
            out.append((j, k, path + (k,)))
            out += nodes(j[k], path + (k,))
    elif isinstance(j, list):
        for k in range(len(j)):
            out.append((j, k, path + (k,)))
            out += nodes(j[k], path + (k,))
    return out


def apply_edits(inv, edits):
    for how, a, b, val in edits:
        every = nodes(inv)
        if not every:
            return
        if a % 3 == 0:   # weight towards the shallow ones
            every = [n for n in every if len(n[2]) <= 3]
        c, k, _ = every[a % len(every)]
        if how == "delete":
            del c[k]
        elif how == "set":
            c[k] = copy.deepcopy(val)
        elif how == "rename" and isinstance(c, dict):
            others = [x[1] for x in every if isinstance(x[1], str)] + ["x", "v1", "v2", ""]
            c[others[b % len(others)]] = c.pop(k)
        elif how == "copy":
            c2, k2, _ = every[b % len(every)]
            c[k] = copy.deepcopy(c2[k2])
        elif how == "append":
            lists = [n[0][n[1]] for n in every if isinstance(n[0][n[1]], list)]
            if lists:
                c2, k2, _ = every[b % len(every)]
                lists[a % len(lists)].append(copy.deepcopy(c2[k2]))
        elif how == "poke" and isinstance(c[k], str):
            s = c[k]
            i = b % (len(s) + 1)
            c[k] = [s[:i] + s[i + 1:], s[:i] + "x" + s[i:], s[:i] + "/" + s[i:], s.upper(), s[:i], s + "\n", s[:i] + "0" + s[i + 1:], s[:i] + "." + s[i:]][a % 8]


def ambiguous(inv):
    """Points on which the specification's text leaves the verdict open."""
    if not isinstance(inv, dict):
        return False
    man = inv.get("manifest")
    man = man if isinstance(man, dict) else {}
    if any(ps == [] for ps in man.values()):
        return True
    vs = inv.get("versions")
    for v in (vs if isinstance(vs, dict) else {}).values():
        s = v.get("state") if isinstance(v, dict) else None
        if isinstance(s, dict) and any(ps == [] for ps in s.values()):
            return True
        c = v.get("created") if isinstance(v, dict) else None
        if isinstance(c, str) and (c[17:19] == "60" or c[:4] == "0000"):
            return True
    fx = inv.get("fixity")
    if isinstance(fx, dict):
        for alg, block in fx.items():
            if alg not in ref.HEXLEN:
                return True
            if isinstance(block, dict) and len({d.lower() for d in block}) != len(block):
                return True
    return False


def random_edits(case, ctx):
    placed = objgen.layout_content(case["obj"])
    inv = objgen.inventory(case["obj"], len(case["obj"]["hist"]) - 1, placed)
    new = copy.deepcopy(inv)
    apply_edits(new, case["edits"])
    iv = InventoryValidator()
    got = iv.validate(copy.deepcopy(new))
    check(got is (len(errors(iv)) == 0) and got is (iv.log.num_errors == 0), "result %r but errors %s", got, sorted(errors(iv)))
    problems = ref.check_inventory(json.loads(json.dumps(new)))
    if ambiguous(new):
        ctx.event("ambiguous")
        return
    check(got is (not problems), "InventoryValidator says %s %s, the specification says %s", got, sorted(errors(iv)), problems[:3] or "valid")
    ctx.event("valid" if got else "invalid")
    ctx.nontrivial(new != inv)


PARTS = [
    Part("broken_rule", cases, broken_rule, 6000),
    Part("random_edits", edit_cases, random_edits, 8000),
]
