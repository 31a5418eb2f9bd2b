"""C18: layouts map identifiers to object paths as specified, safely and without collisions."""
from pathlib import PurePosixPath

from hypothesis import strategies as st

import layouts
from core import Part, check

NAMES = [layouts.N0002, layouts.N0003, layouts.QUOTED, layouts.TUPLE, layouts.UUID]


@st.composite
def cases(draw):
    name = draw(st.sampled_from(NAMES))
    params = draw(layouts.params_for(name))
    ids = draw(st.lists(layouts.ids_for(name, params), min_size=1, max_size=6))
    # Near neighbours, for collisions
    for x in list(ids)[:2]:
        ids.append(draw(st.sampled_from([x + "x", x[:-1], x.upper(), x.lower(), x.replace("/", "%2f"), x.replace(":", "+"), x.replace(" ", "+"),
                                         x.replace("/", "="), x + "\n", " " + x, x + "/", x.replace(".", ",")])))
    return {"alias": draw(st.sampled_from(layouts.ALIASES[name])), "name": name, "params": params, "ids": ids}


def expected(name, ident, params):
    try:
        return layouts.path(name, ident, params)
    except layouts.Unusable:
        return None


def mapping(case, ctx):
    from ocfl.layout import LayoutException
    from ocfl.layout_registry import get_layout
    name, params = case["name"], case["params"]
    layout = get_layout(case["alias"])
    check(layout.NAME == name, "layout %s is called %s", case["alias"], layout.NAME)
    if params is not None:
        layout.check_and_set_layout_params(dict(params, extensionName=name))
    other = get_layout(case["alias"])
    if params is not None:
        other.check_and_set_layout_params(dict(params), require_extension_name=False)
    seen = {}
    for ident in case["ids"]:
        if ident == "" and name == layouts.N0003:
            continue   # not an identifier an object can have; the extension says nothing of it
        want = expected(name, ident, params)
        try:
            got = layout.identifier_to_path(ident)
        except LayoutException:
            got = None
        check(got == want, "%s %r: path of %r is %r, expected %r", name, params, ident, got, want)
        if got is None:
            ctx.event("refused")
            continue
        check(layout.identifier_to_path(ident) == got, "path of %r changes from call to call", ident)
        check(other.identifier_to_path(ident) == got, "path of %r differs between instances", ident)
        segs = got.split("/")
        check(all(s not in ("", ".", "..") for s in segs), "unsafe path %r for %r", got, ident)
        check(seen.setdefault(got, ident) == ident, "identifiers %r and %r have the same path %r", ident, seen[got], got)
        ctx.event("mapped")
    # Encoding can be undone
    for ident in case["ids"]:
        if name in (layouts.N0002, layouts.N0003, layouts.QUOTED):
            check(layout.decode(layout.encode(ident)) == ident, "decode(encode(%r)) gives %r", ident, layout.decode(layout.encode(ident)))
        else:
            check(name == layouts.TUPLE or layout.decode(layout.encode(ident)) == ident, "decode(encode(%r))", ident)
    # Setting parameters of one instance leaves others alone
    third = get_layout(case["alias"])
    for ident in case["ids"][:2]:
        want = expected(name, ident, None)
        if want is not None:
            check(third.identifier_to_path(ident) == want, "parameters leak into new layout instances")
    ctx.event(name)
    ctx.nontrivial(len(seen) >= 2 and any(not i.isalnum() for i in case["ids"]))


# ---------------------------------------------------------------- parameters

VALUES = [None, "", "sha256", "sha512", "md5", "sha1", "SHA256", "nope", "blake2b-512", 0, 1, 2, 3, 6, 7, 8, 10, 11, 32, 33, -1, 2.0, 3.5, True, False, "3", [], {}, [3],
          "urn:uuid:", "x"]


@st.composite
def param_cases(draw):
    name = draw(st.sampled_from(NAMES))
    keys = sorted(layouts.DEFAULTS[name])
    cfg = dict(draw(layouts.params_for(name)) or layouts.DEFAULTS[name])
    for _ in range(draw(st.integers(0, 2))):
        if keys:
            k = draw(st.sampled_from(keys))
            if draw(st.integers(0, 5)) == 0:
                cfg.pop(k, None)
            else:
                cfg[k] = draw(st.sampled_from(VALUES))
    if draw(st.integers(0, 3)) == 0:
        cfg["other"] = draw(st.sampled_from(VALUES))
    ext = draw(st.sampled_from(["none", "good", "good", "bad", "null"]))
    if ext != "none":
        cfg["extensionName"] = {"good": name, "bad": "0003", "null": None}[ext]
    whole = draw(st.sampled_from(["dict"] * 12 + ["list", "str", "null"]))
    return {"name": name, "cfg": {"dict": cfg, "list": [cfg], "str": "x", "null": None}[whole], "require": draw(st.booleans())}


def is_int(v, lo, hi):
    return isinstance(v, int) and not isinstance(v, bool) and lo <= v <= hi


def params_good(name, cfg, require):
    if not isinstance(cfg, dict):
        return False
    if "extensionName" in cfg:
        if cfg["extensionName"] != name:
            return False
    elif require:
        return False
    if name == layouts.N0003:
        alg, size, n = cfg.get("digestAlgorithm"), cfg.get("tupleSize"), cfg.get("numberOfTuples")
        if not isinstance(alg, str) or alg not in layouts.DIGEST_LEN or not is_int(size, 0, 32) or not is_int(n, 0, 32):
            return False
        return (size == 0) == (n == 0) and size * n <= layouts.DIGEST_LEN[alg]
    if name == layouts.TUPLE:
        return is_int(cfg.get("tupleSize"), 2, 6)
    if name == layouts.UUID:
        return isinstance(cfg.get("prefix"), str) and cfg["prefix"] != ""
    return True


def parameters(case, ctx):
    from ocfl.layout import LayoutException
    from ocfl.layout_registry import get_layout
    layout = get_layout(layouts.ALIASES[case["name"]][0])
    want = params_good(case["name"], case["cfg"], case["require"])
    try:
        layout.check_and_set_layout_params(case["cfg"], require_extension_name=case["require"])
        got = True
    except LayoutException:
        got = False
    check(got == want, "parameters %r of %s %s", case["cfg"], case["name"], "accepted" if got else "refused")
    if got and layouts.DEFAULTS[case["name"]]:
        exp = {k: case["cfg"][k] for k in layouts.DEFAULTS[case["name"]]}
        check(layout.config == dict(exp, extensionName=case["name"]), "config is %r for parameters %r", layout.config, case["cfg"])
    ctx.event("accepted" if got else "refused")
    ctx.nontrivial(layouts.DEFAULTS[case["name"]] != {} and isinstance(case["cfg"], dict))


# ---------------------------------------------------------------- paths in roots

NAMES_IN_PATHS = ["a", "ab", "b", "a b", "abc", "é", "...", "-", "A", ".a", "a.b", "~"]


@st.composite
def strip_cases(draw):
    def path(elements):
        return "".join(e + draw(st.sampled_from(["/", "/", "/", "//", "/./"])) for e in elements)
    names = st.sampled_from(NAMES_IN_PATHS)
    root = draw(st.lists(names, max_size=4))
    inside = draw(st.lists(names, max_size=3))
    how = draw(st.sampled_from(["in", "in", "in", "other", "longer", "up"]))
    elements = root + inside
    if how == "other":
        elements = draw(st.lists(names, max_size=5))
    elif how == "longer" and root:
        elements = root[:-1] + [root[-1] + draw(names)] + inside
    elif how == "up":
        elements = root[:-1] + inside
    top = draw(st.sampled_from([("", ""), ("", ""), ("/", "/"), ("/", "/"), ("/", ""), ("", "/")]))
    paths = [t + path(e) for t, e in zip(top, (elements, root))]
    return {"path": paths[0] if draw(st.booleans()) else paths[0].rstrip("/") or paths[0][:1], "root": paths[1] if draw(st.booleans()) else paths[1].rstrip("/") or paths[1][:1]}


def strip(case, ctx):
    from ocfl.layout import Layout, LayoutException
    path, root = case["path"], case["root"]
    try:
        want = str(PurePosixPath(path).relative_to(PurePosixPath(root)))
        if path.startswith("/") != root.startswith("/"):     # an absolute path is in no relative root
            want = None
    except ValueError:
        want = None
    try:
        got = Layout().strip_root(path, root)
    except LayoutException:
        got = None
    check(got == want, "path %r without root %r is %r, expected %r", path, root, got, want)
    ctx.event("inside" if want is not None else "not inside")
    ctx.nontrivial(root.strip("/.") != "" and path.strip("/.") != "")


PARTS = [Part("mapping", cases, mapping, 12000), Part("parameters", param_cases, parameters, 8000), Part("strip", strip_cases, strip, 4000)]
