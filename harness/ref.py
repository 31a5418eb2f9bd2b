"""Independent reference for OCFL: digests, an object validator, layouts and dates.

Written from the OCFL 1.0/1.1 specification text, not from the code under test
(which it never imports).
"""
import hashlib
import json
import re


def digest(alg, data):
    if alg.startswith("blake2b-"):
        return hashlib.blake2b(data, digest_size=int(alg[8:]) // 8).hexdigest()
    return hashlib.new(alg, data).hexdigest()


HEXLEN = {"sha512": 128, "sha256": 64, "sha1": 40, "md5": 32, "blake2b-512": 128,
          "blake2b-384": 96, "blake2b-256": 64, "blake2b-160": 40}


def is_hex(s, alg):
    return isinstance(s, str) and len(s) == HEXLEN[alg] and all(c in "0123456789abcdefABCDEF" for c in s)


_RFC3339 = re.compile(r"(\d{4})-(\d\d)-(\d\d)T(\d\d):(\d\d):(\d\d)(\.\d+)?(Z|[+-](\d\d):(\d\d))", re.ASCII)
_MDAYS = [31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31]


def good_created(s):
    """RFC3339 date-time (upper case T and Z)."""
    m = _RFC3339.fullmatch(s) if isinstance(s, str) else None
    if not m:
        return False
    y, mo, d, h, mi, se = (int(m.group(i)) for i in range(1, 7))
    if not 1 <= mo <= 12:
        return False
    mdays = _MDAYS[mo - 1] + (1 if mo == 2 and (y % 4 == 0 and (y % 100 != 0 or y % 400 == 0)) else 0)
    return 1 <= d <= mdays and h <= 23 and mi <= 59 and se <= 60


def path_problem(path):
    """Problem with a logical path or the part of a content path below the content directory."""
    if not isinstance(path, str):
        return "not a string"
    for seg in path.split("/"):
        if seg in ("", ".", ".."):
            return "bad path element in %r" % path
    return None


def conflicts(paths):
    """Duplicate or file/directory conflicting paths."""
    out = []
    seen = set()
    for p in paths:
        if p in seen:
            out.append("duplicate path %r" % p)
        seen.add(p)
    for p in paths:
        segs = p.split("/")
        for i in range(1, len(segs)):
            if "/".join(segs[:i]) in seen:
                out.append("path %r conflicts with %r" % (p, "/".join(segs[:i])))
    return out


def vdir_number(v):
    m = re.fullmatch(r"v(\d+)", v, re.ASCII)
    return int(m.group(1)) if m else 0


def check_inventory(inv, spec=None, lax=False, where="root"):
    """Problems (list of str) of an inventory on its own."""
    out = []

    def bad(msg):
        out.append("%s: %s" % (where, msg))
    if not isinstance(inv, dict):
        return [where + ": inventory is not an object"]
    if not isinstance(inv.get("id"), str) or inv["id"] == "":
        bad("bad id")
    typ = inv.get("type")
    if typ not in ("https://ocfl.io/1.0/spec/#inventory", "https://ocfl.io/1.1/spec/#inventory"):
        bad("bad type %r" % (typ,))
    elif spec is not None and typ != "https://ocfl.io/%s/spec/#inventory" % spec:
        bad("type %r but expected spec version %s" % (typ, spec))
    alg = inv.get("digestAlgorithm")
    if alg not in ("sha512", "sha256") and not (lax and alg in HEXLEN):
        bad("bad digestAlgorithm %r" % (alg,))
        return out
    cd = inv.get("contentDirectory", "content")
    if not isinstance(cd, str) or "/" in cd or cd in ("", ".", ".."):
        bad("bad contentDirectory")
    vs = inv.get("versions")
    if not isinstance(vs, dict) or not vs:
        bad("bad versions")
        return out
    nums = sorted(vdir_number(v) for v in vs)
    if nums != list(range(1, len(vs) + 1)):
        bad("versions are not a sequence: %r" % sorted(vs))
    padded = [v for v in vs if v.startswith("v0")]
    if padded and (len(padded) != len(vs) or len({len(v) for v in vs}) != 1):
        bad("inconsistent version padding")
    by_num = sorted(vs, key=vdir_number)
    if inv.get("head") != by_num[-1]:
        bad("head %r is not %r" % (inv.get("head"), by_num[-1]))
    man = inv.get("manifest")
    if not isinstance(man, dict):
        bad("bad manifest")
        return out
    allpaths = []
    norm = set()
    for d, ps in man.items():
        if not is_hex(d, alg):
            bad("manifest digest %r is not %s" % (d, alg))
        if d.lower() in norm:
            bad("repeated digest")
        norm.add(d.lower())
        if not isinstance(ps, list) or not ps:
            bad("manifest entry %r is not a list of paths: %r" % (d[:12], ps))
            continue
        for p in ps:
            if not isinstance(p, str):
                bad("content path not a string")
                continue
            parts = p.split("/", 2)
            if len(parts) < 3 or parts[0] not in vs or parts[1] != cd:
                bad("content path %r not in <version>/%s/" % (p, cd))
            elif path_problem(parts[2]):
                bad("content " + path_problem(parts[2]))
            allpaths.append(p)
    out += ["%s: content %s" % (where, c) for c in conflicts(allpaths)]
    used = set()
    for v in by_num:
        ver = vs[v]
        if not isinstance(ver, dict):
            bad("version %s not an object" % v)
            continue
        if not good_created(ver.get("created")):
            bad("%s created %r" % (v, ver.get("created")))
        if "message" in ver and not isinstance(ver["message"], str):
            bad("%s message" % v)
        if "user" in ver:
            u = ver["user"]
            if not isinstance(u, dict) or not isinstance(u.get("name"), str) or ("address" in u and not isinstance(u["address"], str)):
                bad("%s user %r" % (v, u))
        state = ver.get("state")
        if not isinstance(state, dict):
            bad("%s state" % v)
            continue
        lps = []
        for d, ps in state.items():
            used.add(d)
            if d not in man:
                bad("%s state digest %r not in manifest" % (v, d[:12]))
            if not isinstance(ps, list) or not ps:
                bad("%s state entry is not a list of paths: %r" % (v, ps))
                continue
            for p in ps:
                if path_problem(p):
                    bad("%s logical %s" % (v, path_problem(p)))
                else:
                    lps.append(p)
        out += ["%s: %s logical %s" % (where, v, c) for c in conflicts(lps)]
    unused = set(man) - used
    if unused:
        bad("manifest digests not used in any state: %r" % sorted(unused)[:3])
    if "fixity" in inv:
        fx = inv["fixity"]
        if not isinstance(fx, dict):
            bad("fixity")
        else:
            for falg, block in fx.items():
                if not isinstance(block, dict):
                    bad("fixity block %s" % falg)
                    continue
                for d, ps in block.items():
                    if falg in HEXLEN and not is_hex(d, falg):
                        bad("fixity digest %r is not %s" % (d, falg))
                    for p in ps if isinstance(ps, list) else [None]:
                        if p not in allpaths:
                            bad("fixity path %r not in manifest" % (p,))
    return out


def check_object(tree, lax=False, spec=None, need_version_inventories=True, strict=True):
    """Problems (list of str) with an object given as {path: bytes, empty_dir: None}.

    With strict=False, what the specification only recommends is not counted as a problem.
    Returns (problems, root inventory or None).
    """
    out = []
    rootfiles = {p for p in tree if "/" not in p and tree[p] is not None}
    decl = sorted(p for p in rootfiles if p.startswith("0="))
    if len(decl) != 1 or decl[0] not in ("0=ocfl_object_1.0", "0=ocfl_object_1.1"):
        out.append("declarations %r" % decl)
        dspec = None
    else:
        dspec = decl[0][len("0=ocfl_object_"):]
        if tree[decl[0]] != ("ocfl_object_%s\n" % dspec).encode():
            out.append("declaration content %r" % tree[decl[0]])
        if spec is not None and dspec != spec:
            out.append("declares %s but expected %s" % (dspec, spec))
    if "inventory.json" not in rootfiles:
        return out + ["no root inventory"], None
    try:
        inv = json.loads(tree["inventory.json"].decode("utf-8"))
    except ValueError as e:
        return out + ["root inventory: %s" % e], None
    out += check_inventory(inv, spec=dspec, lax=lax)
    if out:
        return out, inv
    alg = inv["digestAlgorithm"]
    cd = inv.get("contentDirectory", "content")
    out += check_sidecar(tree, "", alg)
    expected = {decl[0], "inventory.json", "inventory.json." + alg}
    if rootfiles - expected:
        out.append("unexpected files in object root %r" % sorted(rootfiles - expected))
    top = {p.split("/")[0] for p in tree if "/" in p or tree[p] is None}
    if top - set(inv["versions"]) - {"extensions", "logs"}:
        out.append("unexpected directories in object root %r" % sorted(top - set(inv["versions"])))
    for p in tree:
        if p.startswith("extensions/") and p.count("/") == 1 and tree[p] is not None:
            out.append("file %r in extensions directory" % p)
    if set(inv["versions"]) - top:
        out.append("missing version directories %r" % sorted(set(inv["versions"]) - top))
    # content
    bypath = {}
    for d, ps in inv["manifest"].items():
        for p in ps:
            bypath[p] = d
            if not isinstance(tree.get(p), bytes):
                out.append("content file %r missing" % p)
            elif digest(alg, tree[p]) != d.lower():
                out.append("content file %r does not match its digest" % p)
    for falg, block in inv.get("fixity", {}).items():
        if falg in HEXLEN:
            for d, ps in block.items():
                for p in ps:
                    if isinstance(tree.get(p), bytes) and digest(falg, tree[p]) != d.lower():
                        out.append("fixity %s of %r does not match" % (falg, p))
    root_map = {}
    last_type = ""
    listed = set()   # content paths in the manifests of earlier version inventories
    for v in sorted(inv["versions"], key=vdir_number):
        entries = {p[len(v) + 1:].split("/")[0] for p in tree if p.startswith(v + "/")}
        for p, data in tree.items():
            if p.startswith(v + "/" + cd + "/") or p == v + "/" + cd:
                if data is None:
                    if p != v + "/" + cd:
                        out.append("empty directory %r in content" % p)
                elif p not in bypath:
                    out.append("file %r not in manifest" % p)
        vfile = v + "/inventory.json"
        m = {}
        for d, lps in inv["versions"][v]["state"].items():
            for lp in lps:
                m[lp] = d
        root_map[v] = m
        if tree.get(vfile, 0) is None or any(p.startswith(vfile + "/") for p in tree):
            out.append("%s is a directory" % vfile)
            valg = None
        elif vfile not in tree:
            if need_version_inventories:
                out.append("no inventory in %s" % v)
            valg = None
        elif v == inv["head"]:
            if tree[vfile] != tree["inventory.json"]:
                out.append("inventory in %s differs from root inventory" % v)
            out += check_sidecar(tree, v + "/", alg)
            valg = alg
        else:
            try:
                vinv = json.loads(tree[vfile].decode("utf-8"))
            except ValueError as e:
                out.append("%s inventory: %s" % (v, e))
                continue
            p2 = check_inventory(vinv, lax=lax, where=v)
            if p2:
                out += p2
                continue
            valg = vinv["digestAlgorithm"]
            out += check_sidecar(tree, v + "/", valg)
            if vinv["id"] != inv["id"]:
                out.append("%s id differs" % v)
            if vinv.get("contentDirectory", "content") != cd:
                out.append("%s contentDirectory differs" % v)
            if vinv["head"] != v:
                out.append("%s inventory has head %s" % (v, vinv["head"]))
            if vinv["type"] > inv["type"] or vinv["type"] < last_type:
                out.append("%s has later specification version than root or earlier than the version before" % v)
            last_type = vinv["type"]
            vpaths = {p for ps in vinv["manifest"].values() for p in ps}
            if listed - vpaths:
                out.append("%s manifest lacks %r of an earlier version" % (v, sorted(listed - vpaths)[:3]))
            listed |= vpaths
            unlisted = [p for p in bypath if vdir_number(p.split("/")[0]) <= vdir_number(v) and p not in vpaths]
            if unlisted:
                out.append("%s manifest lacks content %r" % (v, unlisted[:3]))
            for pd, pps in vinv["manifest"].items():
                for pp in pps:
                    if pp not in bypath:
                        out.append("%s manifest path %r is not in the root manifest" % (v, pp))
                    if isinstance(tree.get(pp), bytes) and digest(valg, tree[pp]) != pd.lower():
                        out.append("%s manifest digest of %r does not match" % (v, pp))
            for falg, block in vinv.get("fixity", {}).items():
                for d, ps in block.items() if falg in HEXLEN else ():
                    for p in ps:
                        if isinstance(tree.get(p), bytes) and digest(falg, tree[p]) != d.lower():
                            out.append("%s fixity %s of %r does not match" % (v, falg, p))
            for pv in vinv["versions"]:
                if pv not in inv["versions"]:
                    out.append("%s inventory has unknown version %s" % (v, pv))
                    continue
                pm = {lp: _content_of(tree, vinv, d) for d, lps in vinv["versions"][pv]["state"].items() for lp in lps}
                rm = {lp: _content_of(tree, inv, d) for d, lps in inv["versions"][pv]["state"].items() for lp in lps}
                if pm != rm:
                    out.append("%s inventory: state of %s differs from root" % (v, pv))
        allowed = {cd, "inventory.json"} | ({"inventory.json." + valg} if valg else set())
        if not strict:   # other directories are only advised against
            entries = {e for e in entries if isinstance(tree.get(v + "/" + e), bytes) or e in allowed}
            if isinstance(tree.get(v + "/" + cd), bytes):
                out.append("content directory of %s is a file" % v)
        if entries - allowed:
            out.append("unexpected entries in %s: %r" % (v, sorted(entries - allowed)))
    return out, inv


def _content_of(tree, inv, d):
    ps = inv["manifest"].get(d)
    return tree.get(ps[0]) if ps else None


def check_sidecar(tree, prefix, alg):
    name = prefix + "inventory.json." + alg
    others = [p for p in tree if p.startswith(prefix + "inventory.json.") and "/" not in p[len(prefix):] and p != name and isinstance(tree[p], bytes)]
    out = []
    if others:
        out.append("extra sidecars %r" % others)
    if not isinstance(tree.get(name), bytes):
        return out + ["no sidecar %s" % name]
    m = re.fullmatch(rb"([0-9a-fA-F]+)[ \t]+inventory\.json\n?", tree[name])
    if not m:
        out.append("sidecar %s is %r" % (name, tree[name]))
    elif m.group(1).decode().lower() != digest(alg, tree[prefix + "inventory.json"]):
        out.append("sidecar %s does not match" % name)
    return out


def version_content(tree, inv, v):
    """{logical path: bytes} of version v."""
    out = {}
    for d, lps in inv["versions"][v]["state"].items():
        for lp in lps:
            out[lp] = _content_of(tree, inv, d)
    return out
