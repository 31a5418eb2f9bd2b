"""Independent generator of valid OCFL objects as {path: bytes, empty directory: None}.

Written from the specification; shares nothing with the code under test. A case
is plain data; make(case) gives the tree, and warnings(case) the set of warning
codes that a validator should report for it.
"""
import hashlib
import json

from hypothesis import strategies as st

import gen
import ref

URI_IDS = ["info:x", "http://example.org/obj/1", "ark:/12345/bcd987", "urn:uuid:0-1", "a+b.c-d:x y", "X:1", "urn:日本"]
NON_URI_IDS = ["no-scheme id", "1a:b", "ö:x", "plain", ":x", "a:", "/path", "x/y:z", "\u212a:x", "a\u0663:x", "\u017fa:x"]
GOOD_ADDR = ["mailto:alice@example.org", "https://orcid.org/0000", "info:x", "ftp:a", "message:1@x", "x:y", "MAILTO:a@b", "coap+tcp://a/b", "a1.b-c:d", "mailto:"]
BAD_ADDR = ["no-scheme", "alice@example.org", "//x", "", "a b:c", "1a:b", "+a:b", ":x", "a_b:c", "ähm:x", "\u212a:x", "a\u0663:x"]
CREATED = ["2018-01-01T01:01:01Z", "2020-02-29T23:59:59+00:00", "1999-12-31T00:00:00-05:00", "2025-06-07T08:09:10.123456Z",
           "2000-10-10T10:10:10+05:30", "2021-01-01T12:34:56.7Z", "2018-01-01T00:00:00.0-11:59", "1971-01-01T00:00:00Z"]
REGISTERED = ["0001-digest-algorithms", "0002-flat-direct-storage-layout", "0003-hash-and-id-n-tuple-storage-layout",
              "0004-hashed-n-tuple-storage-layout", "0005-mutable-head"]
CDIRS = [None, None, "content", "data", "c d", "é", ".x", "v1", "...", "(x", "a+b", "C", "contents", "inventory"]
SEPS = [" ", "  ", "\t", " \t "]


@st.composite
def version_meta(draw):
    m = {"created": draw(st.sampled_from(CREATED))}
    if draw(st.sampled_from([True, True, True, False])):
        m["message"] = draw(st.sampled_from(gen.MESSAGES))
    if draw(st.sampled_from([True, True, True, False])):
        m["user"] = {"name": draw(st.sampled_from(gen.NAMES))}
        a = draw(st.sampled_from(["good", "good", "bad", "none"]))
        if a != "none":
            m["user"]["address"] = draw(st.sampled_from(GOOD_ADDR if a == "good" else BAD_ADDR))
    return m


@st.composite
def cases(draw, max_versions=4, plain=False, big=False, min_versions=1, need_content=False, algs=None):
    """plain: leave out the things that give rise to warnings. algs: digest algorithms to use instead of sha512 and sha256."""
    hist = draw(gen.histories(min_versions=min_versions, max_versions=max_versions, big=big))
    if need_content and not any(hist):
        hist[0] = [["a", "s:a"]]
    n = len(hist)
    pads = [0, 0, 0, 2, 3, 5] if n < 10 else [0, 0, 0, 3, 5]  # v09 is the last one with two digits
    spec = draw(st.sampled_from(["1.0", "1.1", "1.1"]))
    vspec = sorted(draw(st.sampled_from(["1.0", "1.1"])) for _ in range(n - 1)) if spec == "1.1" else ["1.0"] * (n - 1)
    alg = draw(st.sampled_from(["sha512", "sha512", "sha256"])) if not plain else "sha512"
    if algs:
        alg = draw(st.sampled_from(algs))
    same_alg = draw(st.sampled_from([True, True, False]))
    cd = draw(st.sampled_from(CDIRS))
    case = {
        "id": draw(st.sampled_from(URI_IDS if plain else URI_IDS + NON_URI_IDS)),
        "spec": spec, "vspec": vspec, "alg": alg,
        "valg": [alg if same_alg else draw(st.sampled_from(algs or ["sha512", "sha256"])) for _ in range(n - 1)],
        "cd": cd,
        "pad": 0 if plain else draw(st.sampled_from(pads)),
        "hist": hist,
        "metas": [draw(version_meta()) for _ in range(n)] if not plain else
                 [{"created": CREATED[0], "message": "m%d" % i, "user": {"name": "A", "address": GOOD_ADDR[0]}} for i in range(n)],
        "style": draw(st.sampled_from(["same", "same", "hash", "deep", "flat"])),
        "reuse": draw(st.lists(st.sampled_from([True, True, True, False]), min_size=n, max_size=n)),
        "dup": draw(st.lists(st.sampled_from([False, False, True]), min_size=n, max_size=n)),
        "hexcase": draw(st.lists(st.sampled_from(["lower", "lower", "lower", "upper", "mixed"]), min_size=n, max_size=n)),
        "fixity": [draw(st.one_of(st.none(), st.none(), st.lists(st.sampled_from(gen.FIXITY_DIGESTS), max_size=3, unique=True))) for _ in range(n)],
        "noinv": [False] * n if plain else draw(st.lists(st.sampled_from([False, False, False, False, True]), min_size=n, max_size=n)),
        "emptycd": [False] * n if plain else draw(st.lists(st.sampled_from([False, False, True]), min_size=n, max_size=n)),
        "xdir": [None] * n if plain else draw(st.lists(st.sampled_from([None, None, None, "other", "logs", "extra/deep"]), min_size=n, max_size=n)),
        "w011": None if plain else draw(st.one_of(st.none(), st.none(), st.none(), st.sampled_from(["message", "user", "created"]))),
        "logs": draw(st.sampled_from([None, None, "empty", "file", "deep"])),
        "ext": draw(st.one_of(st.none(), st.none(), st.lists(st.sampled_from(REGISTERED if plain else REGISTERED + ["my-ext", "0006-unknown", "0001"]), min_size=0, max_size=3, unique=True))),
        "json": {"indent": draw(st.sampled_from([None, 2, 1])), "ascii": draw(st.booleans()), "sort": draw(st.booleans())},
        "sep": draw(st.sampled_from(SEPS)), "eol": draw(st.sampled_from(["\n", "\n", ""])),
        "sidecase": draw(st.sampled_from(["lower", "lower", "lower", "upper"])),
    }
    return case


def vdir(case, i):
    return "v%0*d" % (case["pad"], i + 1) if case["pad"] else "v%d" % (i + 1)


def _case(how, d):
    if how == "upper":
        return d.upper()
    if how == "mixed":
        return "".join(c.upper() if k % 3 == 0 else c for k, c in enumerate(d))
    return d


def layout_content(case):
    """Decide where content goes: list per version of {content path: bytes}."""
    cd = case["cd"] or "content"
    known = set()
    out = []
    for i, tree in enumerate(case["hist"]):
        files = {}
        seen = set()
        taken = set()
        for k, (lp, tok) in enumerate(tree):
            data = gen.content(tok)
            h = hashlib.md5(data).hexdigest()
            if h in known and case["reuse"][i]:
                continue
            if h in seen and not case["dup"][i]:
                continue
            seen.add(h)
            if case["style"] == "same":
                name = lp
            elif case["style"] == "hash":
                name = h[:10] + "-%d" % k
            elif case["style"] == "deep":
                name = "%s/%s/%s.%d" % (h[:2], h[2:4], h, k)
            else:
                name = "f%d" % k
            assert name not in taken
            taken.add(name)
            files["%s/%s/%s" % (vdir(case, i), cd, name)] = data
        known |= seen
        out.append(files)
    return out


def inventory(case, k, placed):
    """The inventory written with version k (0 based)."""
    n = len(case["hist"])
    root = k == n - 1
    alg = case["alg"] if root else case["valg"][k]
    spec = case["spec"] if root else case["vspec"][k]
    how = case["hexcase"][k]
    dcache = {}

    def dig(data):
        h = hashlib.md5(data).digest()
        if h not in dcache:
            dcache[h] = _case(how, ref.digest(alg, data))
        return dcache[h]
    manifest = {}
    for i in range(k + 1):
        for p, data in placed[i].items():
            manifest.setdefault(dig(data), []).append(p)
    versions = {}
    for i in range(k + 1):
        state = {}
        for lp, tok in case["hist"][i]:
            state.setdefault(dig(gen.content(tok)), []).append(lp)
        m = json.loads(json.dumps(case["metas"][i]))
        if case["w011"] and not root and i == 0:
            if case["w011"] == "user":
                m["user"] = {"name": "Somebody Else", "address": GOOD_ADDR[0]}
            elif case["w011"] == "message":
                m["message"] = "another message"
            else:
                m["created"] = "2001-02-03T04:05:06Z"
        m["state"] = state
        versions[vdir(case, i)] = m
    inv = {"id": case["id"], "type": "https://ocfl.io/%s/spec/#inventory" % spec, "digestAlgorithm": alg,
           "head": vdir(case, k), "manifest": manifest, "versions": versions}
    if case["cd"] is not None:
        inv["contentDirectory"] = case["cd"]
    if case["fixity"][k] is not None:
        fx = {}
        for falg in case["fixity"][k]:
            block = {}
            for j, (p, data) in enumerate(sorted((p, d) for i in range(k + 1) for p, d in placed[i].items())):
                if (j + len(falg)) % 3:
                    block.setdefault(_case(how, ref.digest(falg, data)), []).append(p)
            fx[falg] = block
        inv["fixity"] = fx
    return inv


def dump(case, inv):
    j = case["json"]
    return json.dumps(inv, indent=j["indent"], ensure_ascii=j["ascii"], sort_keys=j["sort"]).encode("utf-8")


def sidecar(case, invbytes, alg):
    d = ref.digest(alg, invbytes)
    if case["sidecase"] == "upper":
        d = d.upper()
    return (d + case["sep"] + "inventory.json" + case["eol"]).encode()


def make(case):
    """The object as a tree."""
    n = len(case["hist"])
    placed = layout_content(case)
    tree = {"0=ocfl_object_" + case["spec"]: ("ocfl_object_%s\n" % case["spec"]).encode()}
    cd = case["cd"] or "content"
    for k in range(n):
        v = vdir(case, k)
        tree.update(placed[k])
        inv = inventory(case, k, placed)
        data = dump(case, inv)
        side = sidecar(case, data, inv["digestAlgorithm"])
        has_any = bool(placed[k])
        if not placed[k] and case["emptycd"][k]:
            tree[v + "/" + cd] = None
            has_any = True
        if not case["noinv"][k]:
            tree[v + "/inventory.json"] = data
            tree[v + "/inventory.json." + inv["digestAlgorithm"]] = side
            has_any = True
        x = _xdir(case, k)
        if x:
            tree[v + "/" + x + "/f"] = b"extra"
            has_any = True
        if not has_any:
            tree[v] = None     # version directory with nothing in it
        if k == n - 1:
            tree["inventory.json"] = data
            tree["inventory.json." + inv["digestAlgorithm"]] = side
    if case["logs"]:
        if case["logs"] == "empty":
            tree["logs"] = None
        else:
            tree["logs/x.log" if case["logs"] == "file" else "logs/a/b/c"] = b"log"
    if case["ext"] is not None:
        if not case["ext"]:
            tree["extensions"] = None
        for e in case["ext"]:
            tree["extensions/" + e + "/config.json"] = b"{}"
    return tree


def _xdir(case, k):
    x = case["xdir"][k]
    cd = case["cd"] or "content"
    if x and x.split("/")[0] == cd:
        return None
    return x


def is_uri(s):
    scheme, sep, rest = s.partition(":")
    ok = sep == ":" and rest != "" and scheme != "" and scheme.isascii() and scheme[0].isalpha()
    return bool(ok and all(c.isalnum() or c in "+-." for c in scheme))


def warnings(case):
    """Codes of the warnings that apply to the object of this case."""
    w = set()
    n = len(case["hist"])
    placed = layout_content(case)
    read = [k for k in range(n - 1) if not case["noinv"][k]]    # prior inventories that are present
    if case["pad"]:
        w.add("W001")
    if any(_xdir(case, k) for k in range(n)):
        w.add("W002")
    if any(not placed[k] and case["emptycd"][k] for k in range(n)):
        w.add("W003")
    if case["alg"] == "sha256" or any(case["valg"][k] == "sha256" for k in read):
        w.add("W004")
    if not is_uri(case["id"]):
        w.add("W005")
    for m in case["metas"]:
        if "message" not in m:
            w.add("W007a")
        if "user" not in m:
            w.add("W007b")
        elif "address" not in m["user"]:
            w.add("W008")
        elif m["user"]["address"] not in GOOD_ADDR:
            w.add("W009")
    if any(case["noinv"]):
        w.add("W010")
    if case["w011"] and read:
        m0 = case["metas"][0]
        changed = {"user": {"name": "Somebody Else", "address": GOOD_ADDR[0]}, "message": "another message", "created": "2001-02-03T04:05:06Z"}
        if m0.get(case["w011"]) != changed[case["w011"]]:
            w.add("W011")
    if case["ext"] and any(e not in REGISTERED for e in case["ext"]):
        w.add("W013")
    return w


def write(root, tree):
    """Write a tree with empty directories."""
    import os
    os.makedirs(root, exist_ok=True)
    for p, data in tree.items():
        full = os.path.join(root, p)
        if data is None:
            os.makedirs(full, exist_ok=True)
        else:
            os.makedirs(os.path.dirname(full), exist_ok=True)
            with open(full, "wb") as fh:
                fh.write(data)
    return root
