"""C19: what a storage root declares of its layout is what every later use of it follows."""
import json
import os

import ocfl
from hypothesis import strategies as st

import layouts
from core import Part, attempt, check, read_tree, write_tree
from props.c18 import NAMES, VALUES, expected, params_good


@st.composite
def create_cases(draw):
    name = draw(st.sampled_from(NAMES))
    how = draw(st.sampled_from(["good"] * 6 + ["badparams", "badjson", "unknown", "nolayout", "exists", "isfile", "noparent", "badspec"]))
    params = draw(layouts.params_for(name))
    ids = draw(st.lists(layouts.ids_for(name, params).filter(bool), min_size=1, max_size=4))
    if how == "badparams":
        params = dict(params or layouts.DEFAULTS[name])
        for k in sorted(params):
            if draw(st.booleans()):
                params[k] = draw(st.sampled_from(VALUES))
        if draw(st.booleans()):
            params["extensionName"] = draw(st.sampled_from([name, "x"]))
    return {"name": name, "alias": draw(st.sampled_from(layouts.ALIASES[name])), "how": how, "params": params, "ids": ids,
            "spec": draw(st.sampled_from(["1.0", "1.1", None])), "ctor": draw(st.sampled_from([None, None, "1.0", "1.1"])),
            "other": draw(st.sampled_from([None, None] + [a for n in NAMES for a in layouts.ALIASES[n]]))}


def create(case, ctx):
    d = ctx.dir()
    how, name, params = case["how"], case["name"], case["params"]
    root = os.path.join(d, "root")
    alias = case["alias"]
    text = None if params is None else json.dumps(params)
    spec = case["spec"]
    if how == "exists":
        os.mkdir(root)
    elif how == "isfile":
        write_tree(d, {"root": b"x"})
    elif how == "noparent":
        root = os.path.join(d, "a", "root")
    elif how == "badjson":
        text = '{"x": '
    elif how == "unknown":
        alias = "no-such-layout"
    elif how == "nolayout":
        alias, text = None, None
    elif how == "badspec":
        spec = "1.2"
    before = read_tree(d, dirs=True)
    good = how in ("good", "nolayout") or (how == "badparams" and params_good(name, params, False))
    got = attempt(lambda: ocfl.StorageRoot(root=root, layout_name=alias, spec_version=case["ctor"]).initialize(spec_version=spec, layout_params=text) or True,
                  expected=(ocfl.StorageRootException,))
    ctx.event(how + (" ok" if good else ""))
    if not good:
        check(not got, "initialize succeeded with %s %r", how, case)
        check(read_tree(d, dirs=True) == before, "failed initialize (%s) changed something", how)
        return
    check(bool(got), "initialize failed: %r", got)
    spec = spec or case["ctor"] or "1.1"
    tree = read_tree(root, dirs=True)
    want = {"0=ocfl_" + spec}
    cfgfile = "extensions/%s/config.json" % name
    full = dict(layouts.DEFAULTS[name], **{k: v for k, v in (params or {}).items() if k in layouts.DEFAULTS[name]})
    if how != "nolayout":
        want.add("ocfl_layout.json")
        if full:
            want.add(cfgfile)
    check(set(tree) == want, "new storage root has %s, expected %s", sorted(tree), sorted(want))
    check(tree["0=ocfl_" + spec] == ("ocfl_%s\n" % spec).encode(), "root declaration %r", tree["0=ocfl_" + spec])
    if how != "nolayout":
        lay = json.loads(tree["ocfl_layout.json"])
        check(set(lay) == {"extension", "description"} and lay["extension"] == name and isinstance(lay["description"], str), "ocfl_layout.json %r", lay)
        if full:
            check(json.loads(tree[cfgfile]) == dict(full, extensionName=name), "config.json %r for %r", tree[cfgfile], params)
    # Opened again, perhaps by someone who thinks it has another layout
    for other in (None, case["other"]):
        s = ocfl.StorageRoot(root=root, layout_name=other)
        check(s.validate(log_errors=False), "new root not valid: %s", s.log.status_str())
        check(s.num_objects == 0 and s.spec_version == spec, "new root has %d objects, version %s", s.num_objects, s.spec_version)
        if how == "nolayout":
            if other is None:
                check(not attempt(s.object_path, "x", expected=(ocfl.StorageRootException,)), "object path without layout")
            continue
        for ident in case["ids"]:
            want = expected(name, ident, full)
            got = attempt(s.object_path, ident, expected=(ocfl.StorageRootException,))
            check(got == want if want is not None else not got, "path of %r in reopened root %r, expected %r", ident, got, want)
    s = ocfl.StorageRoot(root=root)
    if how != "nolayout":
        for ident in case["ids"]:
            want = expected(name, ident, full)
            got = attempt(s.object_path, ident, expected=(ocfl.StorageRootException,))
            check(got == want if want is not None else not got, "path of %r in reopened root %r, expected %r", ident, got, want)
    check(list(ocfl.StorageRoot(root=root).list_objects()) == [], "objects in new root")
    check(read_tree(root, dirs=True) == tree, "looking at the root changed it")
    for wrong in ("1.0", "1.1"):
        if wrong != spec:
            s = ocfl.StorageRoot(root=root, spec_version=wrong)
            check(not s.validate(log_errors=False) and sorted(s.log.codes) == ["E069d"], "root of version %s as %s: %s", spec, wrong, sorted(s.log.codes))
    ctx.nontrivial(how == "good" and (params or {}) != {})


# ---------------------------------------------------------------- roots made elsewhere

LAYOUT_DOCS = ["good", "good", "good", "good", "absent", "notjson", "badutf8", "list", "noext", "nodesc", "extnum", "descnum", "extra", "dir", "unknown", "alias", "empty"]
CONFIG_DOCS = ["good", "good", "good", "absent", "absent", "notjson", "badutf8", "list", "noname", "wrongname", "badparam", "extra", "dir", "otherdir", "dropparam"]


@st.composite
def read_cases(draw):
    name = draw(st.sampled_from(NAMES))
    params = draw(layouts.params_for(name)) or dict(layouts.DEFAULTS[name])
    return {"name": name, "params": params, "layout": draw(st.sampled_from(LAYOUT_DOCS)), "config": draw(st.sampled_from(CONFIG_DOCS)),
            "alias": draw(st.sampled_from(layouts.ALIASES[name])),
            "which": draw(st.integers(0, 2)), "value": draw(st.sampled_from(VALUES)),
            "ids": draw(st.lists(layouts.ids_for(name, params).filter(bool), min_size=1, max_size=4))}


def declared(case):
    """(tree of the root, error code or None, parameters in force or None)."""
    name = case["name"]
    tree = {"0=ocfl_1.1": b"ocfl_1.1\n", "README.txt": b"x"}
    doc = {"extension": name, "description": "Some text"}
    err = None
    how = case["layout"]
    if how == "absent":
        return tree, None, None
    if how == "notjson":
        data, err = b'{"extension"', "E070a"
    elif how == "badutf8":
        data, err = b'{"extension": "\xff"}', "E070a"
    elif how == "empty":
        data, err = b"", "E070a"
    elif how == "dir":
        tree["ocfl_layout.json/x"] = b""
        return tree, "E070a", None
    elif how == "list":
        data, err = json.dumps([doc]).encode(), "E070b"
    else:
        if how in ("noext", "nodesc", "extnum", "descnum"):
            k = "extension" if how.startswith("noext") or how.startswith("extnum") else "description"
            if how.startswith("no"):
                del doc[k]
            else:
                doc[k] = 3
            err = "E070c"
        elif how == "unknown":
            doc["extension"], err = "0042-unknown", "E071"
        elif how == "alias":
            doc["extension"] = case["alias"]
        elif how == "extra":
            doc["more"] = {"x": 1}
        data = json.dumps(doc).encode()
    tree["ocfl_layout.json"] = data
    cfgfile = "extensions/%s/config.json" % name
    cfg = dict(case["params"], extensionName=name)
    how = case["config"]
    keys = sorted(case["params"])
    if how == "absent":
        return tree, err, dict(layouts.DEFAULTS[name])
    if how == "otherdir":
        tree["extensions/0001-digest-algorithms/config.json"] = json.dumps(cfg).encode()
        return tree, err, dict(layouts.DEFAULTS[name])
    if how == "dir":
        tree[cfgfile + "/x"] = b""
        return tree, err or "E070d", None
    if how in ("notjson", "badutf8", "list"):
        tree[cfgfile] = {"notjson": b"{", "badutf8": b'{"a": "\xfe"}', "list": json.dumps([cfg]).encode()}[how]
        return tree, err or "E070d", None
    if how == "noname":
        del cfg["extensionName"]
    elif how == "wrongname":
        cfg["extensionName"] = "x"
    elif how == "badparam" and keys:
        cfg[keys[case["which"] % len(keys)]] = case["value"]
    elif how == "dropparam" and keys:
        del cfg[keys[case["which"] % len(keys)]]
    elif how == "extra":
        cfg["more"] = [1]
    tree[cfgfile] = json.dumps(cfg).encode()
    if not params_good(name, cfg, True):
        return tree, err or "E070d", None
    return tree, err, {k: cfg[k] for k in keys}


def read(case, ctx):
    root = os.path.join(ctx.dir(), "root")
    tree, err, params = declared(case)
    write_tree(root, tree)
    s = ocfl.StorageRoot(root=root)
    ok = s.validate(log_errors=False)
    check(ok == (err is None), "validate %s, expected %s (%s)", ok, err, s.log.status_str())
    codes = sorted(c for c in s.log.codes if c != "W901")
    check(codes == ([err] if err else []), "codes %s, expected %s", codes, err)
    s = ocfl.StorageRoot(root=root)
    for ident in case["ids"]:
        want = expected(case["name"], ident, params) if err is None and params is not None else None
        got = attempt(s.object_path, ident, expected=(ocfl.StorageRootException,))
        if err is not None:
            s = ocfl.StorageRoot(root=root)
        check(got == want if want is not None else not got, "path of %r is %r, expected %r", ident, got, want)
    if err is not None:
        check(not attempt(lambda: list(ocfl.StorageRoot(root=root).list_objects()) or True, expected=(ocfl.StorageRootException,)), "list_objects with %s", err)
    check(read_tree(root) == tree, "reading the root changed it")
    ctx.event("error " + err if err else "ok")
    ctx.nontrivial(case["layout"] != "absent")


PARTS = [Part("create", create_cases, create, 3000), Part("read", read_cases, read, 4000)]
