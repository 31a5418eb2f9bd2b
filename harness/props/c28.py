"""C28: a validation report says what is wrong, where, and under which rule of the specification."""
import json
import os
import re

import ocfl
from hypothesis import strategies as st
from ocfl.inventory_validator import InventoryValidator
from ocfl.validation_logger import ValidationLogger
from ocfl.validator import Validator

import layouts
import objgen
import ref
from core import Part, check
from props import c10, c12, c13, c15, c20

TEXTS = st.text(alphabet=st.characters(blacklist_characters="%\n[]", blacklist_categories=("Cs", "Cc")), min_size=1, max_size=12)
LINK = re.compile(r" \(see https://ocfl\.io/(1\.[01])/spec/#([EW]\d\d\d)\)$")


def wellformed(messages):
    """Every message has a code, a complete text, and a link to the rule of that code."""
    for m in messages:
        mm = re.match(r"\[([EW]\d\d\d)[a-z]?\] ", m)
        check(mm is not None, "message without code: %r", m)
        check("???" not in m and not re.search(r"Unknown (error|warning)|%s", m), "incomplete message: %r", m)
        link = LINK.search(m)
        if int(mm.group(1)[1:]) < 200:   # others are not in the specification
            check(link is not None and link.group(2) == mm.group(1), "link of message: %r", m)
        check(len(m) > len(mm.group(0)) + 10 + len(link.group(0) if link else ""), "message without text: %r", m)


def consistent(v, passed):
    """Counts, codes and text of the report agree."""
    log = v.log
    errs = [m for m in log.messages if m.startswith("[E")]
    warns = [m for m in log.messages if m.startswith("[W")]
    check(len(errs) + len(warns) == len(log.messages), "messages of neither kind: %r", log.messages)
    check(log.num_errors == len(errs) and log.num_warnings == len(warns), "%d errors and %d warnings counted, but %d and %d reported", log.num_errors, log.num_warnings, len(errs), len(warns))
    check(passed is (not errs), "result is %s with errors %r", passed, errs)
    seen = {}
    for m in log.messages:
        seen[m[1:m.index("]")]] = m
    check(seen == log.codes, "codes %r of messages %r", log.codes, log.messages)
    for s, prefix in ((v.status_str(), ""), (v.status_str(prefix="## "), "## "), (str(v.log), "")):
        want = sorted(x for m in log.messages for x in (prefix + m).split("\n"))
        check(sorted(s.split("\n") if s else []) == want, "status string %r of %r", s, log.messages)


# ---------------------------------------------------------------- several damages

FAULTS = ["flip", "flip", "flip", "lose", "lose", "extra", "extra", "emptydir", "rootfile", "rootdir", "versionfile", "versiondir",
          "sidecar", "vsidecar", "nosidecar", "extfile", "decl", "twodecl"]


@st.composite
def cases(draw):
    case = draw(objgen.cases(need_content=True))
    n = draw(st.integers(1, 6))
    return {"obj": case, "faults": [[draw(st.sampled_from(FAULTS)), draw(st.integers(0, 10 ** 6))] for _ in range(n)], "lang": draw(st.sampled_from(["en", "en", "xx", "de"]))}


def several(case, ctx):
    o = c10.Obj(case["obj"])
    tree = o.tree
    want = []          # for each fault: codes, and strings that a message has
    blamed = set()
    touched = set()
    nosidecar = False
    specs = {case["obj"]["spec"]} | {case["obj"]["vspec"][k] for k in o.invs if k != o.n - 1}
    for how, r in case["faults"]:
        intact = sorted(p for p in o.content if p not in blamed)
        v = o.vdirs[r % o.n]
        base = v + "/" + o.cd + "/"
        if how == "flip" and intact:
            p = intact[r % len(intact)]
            blamed.add(p)
            old, new = tree[p], [tree[p] + b"x", b"x" + tree[p], tree[p][:-1] + bytes([tree[p][-1] ^ 1]) if tree[p] else b"\n"][r % 3]
            tree[p] = new
            want.append(({"E092a"}, [p, ref.digest(o.alg, old), ref.digest(o.alg, new)]))
        elif how == "lose" and len(intact) > 1:
            p = intact[r % len(intact)]
            if sum(q.startswith(p.split("/")[0] + "/") for q in tree) < 2:
                continue
            blamed.add(p)
            del tree[p]
            want.append(({"E092b"}, [p]))
        elif how == "extra":
            p = base + ["surplus-%d" % r, "zz-surplus/%d/x" % r, ".surplus-%d" % r][r % 3]
            tree.pop(base[:-1], None)
            tree[p] = b"surplus"
            want.append(({"E023a"}, [p]))
        elif how == "emptydir":
            p = base + "empty-%d" % r
            tree.pop(base[:-1], None)
            tree[p] = None
            want.append(({"E024"}, [p]))
        elif how == "rootfile":
            tree["surplus-%d.txt" % r] = b"x"
            want.append(({"E001a"}, ["surplus-%d.txt" % r]))
        elif how == "rootdir":
            tree["surplus-%d/x" % r] = b"x"
            want.append(({"E001b"}, ["surplus-%d" % r]))
        elif how == "versionfile":
            tree[v + "/surplus-%d" % r] = b"x"
            want.append(({"E015"}, [v, "surplus-%d" % r]))
        elif how == "versiondir":
            w = "v%d" % (o.n + 100 + r % 50) if not case["obj"]["pad"] else "v%0*d" % (case["obj"]["pad"], o.n + 100 + r % 50)
            tree[w + "/content/x"] = b"x"
            want.append(({"E046b", "E001b"}, [w]))
            if case["obj"]["pad"] and len(w) != len(o.vdirs[0]):
                want.pop()
                del tree[w + "/content/x"]
        elif how == "sidecar" and not nosidecar and "inventory.json." + o.alg not in touched:
            name = "inventory.json." + o.alg
            touched.add(name)
            other = ref.digest(o.alg, b"something else")
            tree[name] = (other + " inventory.json\n").encode()
            want.append(({"E060"}, ["inventory.json", other, ref.digest(o.alg, tree["inventory.json"])]))
        elif how == "vsidecar":
            ks = [k for k in o.invs if k != o.n - 1]
            name = ks and "%s/inventory.json.%s" % (o.vdirs[ks[r % len(ks)]], case["obj"]["valg"][ks[r % len(ks)]])
            if ks and name not in touched:
                touched.add(name)
                tree[name] = b"not a digest\n"
                want.append(({"E061"}, [name]))
        elif how == "nosidecar" and not nosidecar:
            name = "inventory.json." + o.alg
            if name not in touched:
                del tree[name]
                nosidecar = True
                touched.add(name)
                want.append(({"E058a"}, [name]))
        elif how == "extfile":
            name = "surplus-%d" % r
            tree.pop("extensions", None)
            tree["extensions/" + name] = b"x"
            want.append(({"E067"}, [name]))
        elif how == "twodecl" and "twodecl" not in touched:
            touched.add("twodecl")
            name = ["0=something", "0=ocfl_object_1.9", "0=ocfl_object", o.decl + "x"][r % 4]
            tree[name] = b"x"
            want.append(({"E006"}, [name]))
            want.append(({"E003b"}, ["2", o.decl[-3:]]))
        elif how == "decl" and "decl" not in touched:
            touched.add("decl")
            tree[o.decl] = b"something else\n"
            want.append(({"E007"}, [o.decl]))
    if not want:
        ctx.event("nothing changed")
        return
    objdir = objgen.write(os.path.join(ctx.dir(), "obj"), tree)
    v = Validator(log_warnings=True, lang=case["lang"])
    passed = v.validate_object(objdir)
    wellformed(v.log.messages)
    consistent(v, passed)
    # Everything that is wrong is reported (the content is not looked at after a wrong declaration)
    if touched & {"decl", "twodecl"}:
        want = [w for w in want if not w[0] & {"E092a", "E092b", "E023a", "E024", "E015"}]
    for codes, strings in want:
        mine = [m for m in v.log.messages if m[1:m.index("]")] in codes]
        check(any(all(s.lower() in m.lower() for s in strings) for m in mine), "no message %s about %s, only %s", sorted(codes), strings, v.log.messages)
    # ... nothing else, and nobody else is blamed
    allowed = {c for codes, _ in want for c in codes} | {"E093a", "E093b", "E092a"}
    got = {c for c in v.log.codes if c[0] == "E"}
    check(got <= allowed, "errors %s for damage that amounts to %s: %s", sorted(got), sorted(allowed), v.log.messages)
    for m in v.log.messages:
        if m.startswith(("[E092", "[E093")):
            check(any(p in m for p in blamed), "message about a file that is as it was: %r", m)
        link = LINK.search(m)
        # (the declaration is read before the version is known)
        check(link is None or link.group(1) in specs or m.startswith(("[E007]", "[E006]")), "link of %r for object of %s", m, sorted(specs))
    # Warnings as for the undamaged object
    warn = {c for c in v.log.codes if c[0] == "W"}
    base_warn = objgen.warnings(case["obj"])
    check(warn <= base_warn | {"W003"}, "warnings %s, without damage %s", sorted(warn), sorted(base_warn))
    # Filtering takes away messages, and nothing else
    for w, e in ((True, False), (False, True), (False, False)):
        v2 = Validator(log_warnings=w, log_errors=e)
        p2 = v2.validate_object(objdir)
        kept = [m for m in v.log.messages if (m[1] == "W" and w) or (m[1] == "E" and e)]
        check(p2 is passed and sorted(v2.log.messages) == sorted(kept), "with warnings %s and errors %s: %s, expected %s", w, e, v2.log.messages, kept)
        check((v2.log.num_errors, v2.log.num_warnings) == (v.log.num_errors, v.log.num_warnings), "other counts with warnings %s and errors %s", w, e)
    ctx.event("%d faults" % len(want))
    ctx.nontrivial(len(want) > 1)


# ---------------------------------------------------------------- any inventory, any files

@st.composite
def any_cases(draw):
    return {"kind": draw(st.sampled_from(["inventory", "files", "inventory", "files", "rule", "rule", "inventory", "files", "none"])), "name": draw(TEXTS), "inv": draw(c12.edit_cases()), "rule": draw(c12.cases()), "files": draw(c13.cases())}


def any_report(case, ctx):
    if case["kind"] == "none":
        path = os.path.join(ctx.dir(), "nothing-" + re.sub(r"[^\w]", "_", case["name"]))
        v = Validator()
        passed = v.validate_object(path)
        check(passed is False and list(v.log.codes) == ["E003e"] and path in v.log.messages[0], "report on %s, which does not exist: %s, %s", path, passed, v.log.messages)
        consistent(v, passed)
    elif case["kind"] in ("inventory", "rule"):
        if case["kind"] == "rule":
            inv = c12.mutate(case["rule"])[1]
        else:
            c = case["inv"]["obj"]
            inv = objgen.inventory(c, len(c["hist"]) - 1, objgen.layout_content(c))
            c12.apply_edits(inv, case["inv"]["edits"])
        v = InventoryValidator(log=ValidationLogger(log_warnings=True), where="root")
        passed = v.validate(inv)
        v.status_str = v.log.status_str
        check("E008" not in v.log.codes or not inv.get("versions"), "E008 although there are versions: %s", v.log.messages)
        consistent(v, passed)
        for force in ("1.0", "1.1"):
            fv = InventoryValidator(log=ValidationLogger(log_warnings=True), where="root")
            fv.status_str = fv.log.status_str
            consistent(fv, fv.validate(inv, force_spec_version=force))
            wellformed(fv.log.messages)
            for m in fv.log.messages:
                if m.startswith("[E038a]"):
                    check(force in m and inv["type"] in m, "message does not say that type is %r but must be that of %s: %r", inv["type"], force, m)
    else:
        tree = objgen.make(case["files"]["obj"])
        for mut in case["files"]["muts"]:
            c13.mutate(tree, mut)
        c13.normalize(tree)
        objdir = objgen.write(os.path.join(ctx.dir(), "obj"), tree)
        v = Validator(log_warnings=True)
        passed = v.validate_object(objdir)
        consistent(v, passed)
        force = ["1.0", "1.1"][len(case["name"]) % 2]
        fv = Validator(log_warnings=True, force_spec_version=force)
        consistent(fv, fv.validate_object(objdir))
        wellformed(fv.log.messages)
    wellformed(v.log.messages)
    ctx.event("%s %s" % (case["kind"], "valid" if passed else "invalid"))
    ctx.nontrivial(not passed)


def prior_report(case, ctx):
    """A departure in an earlier version's inventory: the message names it."""
    name, o, codes = c15.build(case)
    objdir = objgen.write(os.path.join(ctx.dir(), "obj"), o.tree())
    v = Validator(log_warnings=True)
    passed = v.validate_object(objdir)
    consistent(v, passed)
    wellformed(v.log.messages)
    check(passed is False, "%s passed", name)
    if o.about:
        check(any(m[1:m.index("]")] in codes and all(a.lower() in m.lower() for a in o.about) for m in v.log.messages), "no message %s with all of %s (%s), only %s", sorted(codes), o.about, name, v.log.messages)
        ctx.nontrivial()
    ctx.event(name)


# ---------------------------------------------------------------- storage roots

LAYOUT = {"E070a": [b"", b"{", b"\xff", b"{}x"], "E070b": [b"[]", b"1", b"null", b'"x"'],
          "E070c": [b"{}", b'{"extension": "%s"}' % layouts.N0003.encode(), b'{"extension": 1, "description": "x"}', b'{"extension": "x", "description": null}'],
          "E071": [b'{"extension": "no-such-layout", "description": "x"}'],
          "E070d": [b'{"extension": "%s", "description": "x"}' % layouts.N0003.encode()]}


@st.composite
def root_cases(draw):
    root = draw(c20.cases())
    for item in root["items"]:
        if draw(st.integers(0, 2)) == 0:
            del item[2]["metas"][0]["message"]
    return {"root": root, "layout": draw(st.sampled_from([None] * 12 + sorted(LAYOUT) * 2)), "r": draw(st.integers(0, 3)),
            "expect": draw(st.sampled_from([None, None, None, "1.0", "1.1"])), "errors": draw(st.sampled_from([True, True, False])), "lang": draw(st.sampled_from(["en", "xx"]))}


def root_report(case, ctx):
    c = case["root"]
    where = []
    tree, err, codes, objs, warn = c20.build(c, where)
    top = os.path.join(ctx.dir(), "a root")
    structural = None
    if err is not None:
        structural = [err, [top] + [p for p in tree if p.startswith("0=") and "/" not in p and err == "E069c"]]
        if err == "E069e":
            structural[1].append("0=ocfl_" + c["spec"])
        case = dict(case, expect=None)      # which of two errors comes first does not matter
    elif case["expect"] not in (None, c["spec"]):
        structural = ["E069d", [top, case["expect"], c["spec"]]]
    elif case["layout"]:
        options = LAYOUT[case["layout"]]
        tree["ocfl_layout.json"] = options[case["r"] % len(options)]
        structural = [case["layout"], [top] + (["no-such-layout"] if case["layout"] == "E071" else [])]
        if case["layout"] == "E070d":
            tree.pop("extensions", None)
            tree["extensions/%s/config.json" % layouts.N0003] = [b"", b'{"tupleSize": "x"}', b"[]", b'{"digestAlgorithm": "none"}'][case["r"]]
    objgen.write(top, tree)
    s = ocfl.StorageRoot(root=top, spec_version=case["expect"])
    passed = s.validate(validate_objects=c["objects"], check_digests=c["digests"], log_errors=case["errors"], log_warnings=c["warn"], lang=case["lang"])
    log = s.log
    wellformed(log.messages)
    if case["errors"]:
        for m in log.messages:
            link = LINK.search(m)
            check(link is None or structural or link.group(1) == c["spec"], "link of %r for root of %s", m, c["spec"])
    nerr, nwarn = (1, 0) if structural else (len(where), warn)
    check((log.num_errors, log.num_warnings) == (nerr, nwarn), "%d errors and %d warnings counted, expected %d and %d: %s", log.num_errors, log.num_warnings, nerr, nwarn, log.messages)
    want = [structural] if structural else where
    check(sorted(m[1:m.index("]")] for m in log.messages) == sorted([w[0] for w in want if case["errors"]] + ["W901"] * (nwarn if c["warn"] else 0)),
          "messages %s, expected for %s, errors %s and warnings %s", log.messages, want, case["errors"], c["warn"])
    if case["errors"]:
        for code, strings in want:
            check(any(m.startswith("[%s]" % code) and all(x in m for x in strings) for m in log.messages), "no message %s about %s, only %s", code, strings, log.messages)
    if c["warn"] and warn and not structural:
        check(any("my-ext" in m for m in log.messages) or c["ext"] not in ("unregistered", "mixed"), "no warning about my-ext: %s", log.messages)
    check(passed is (not structural and not where and (not c["objects"] or all(v for _, v in objs.values()))), "result %s with %s and objects %s", passed, want, objs)
    # The report on each object is the one its own validation gives
    expected = []
    if not structural and c["objects"]:
        for p in objs:
            v = Validator(log_warnings=c["warn"], check_digests=c["digests"])
            v.validate_object(os.path.join(top, p))
            m = v.status_str(prefix="[[%s]]" % p)
            if m:
                expected.append([p, m])
    check(sorted([p, sorted(m.split("\n"))] for p, m in s.errors) == sorted([p, sorted(m.split("\n"))] for p, m in expected), "reports on objects %s, by themselves %s", s.errors, expected)
    ctx.event("structure" if structural else "hierarchy" if where else "objects" if expected else "nothing wrong")
    ctx.nontrivial(bool(want or expected))


# ---------------------------------------------------------------- the logger itself

PARAMS = ["where", "path", "digest", "n"]


@st.composite
def logger_cases(draw):
    codes = {}
    for code in draw(st.lists(st.sampled_from(["E001", "E001a", "E092b", "W005", "W901", "E199", "E200", "E999z"]), min_size=1, max_size=5, unique=True)):
        params = draw(st.lists(st.sampled_from(PARAMS), max_size=3, unique=True))
        entry = {"description": {}}
        if params or draw(st.booleans()):
            entry["params"] = params
        for lang in draw(st.lists(st.sampled_from(["en", "de", "fr", "zz"]), min_size=1, max_size=3, unique=True)):
            entry["description"][lang] = lang + "-text " + " ".join("%s" for _ in params)
        codes[code] = entry
    return {"codes": codes, "lang": draw(st.sampled_from(["en", "de", "fr", "xx"])), "errors": draw(st.booleans()), "warnings": draw(st.booleans()),
            "spec": draw(st.sampled_from(["1.0", "1.1"])),
            "calls": draw(st.lists(st.tuples(st.sampled_from(sorted(codes)), st.booleans(), st.lists(TEXTS | st.sampled_from(["%s", "100%", "a\nb"]), min_size=4, max_size=4)).map(list), max_size=8))}


def logger(case, ctx):
    def run(codes):
        log = ValidationLogger(log_warnings=case["warnings"], log_errors=case["errors"], spec_version=case["spec"], lang=case["lang"], validation_codes=codes)
        for code, is_error, args in case["calls"]:
            (log.error if is_error else log.warning)(code, **dict(zip(PARAMS, args)))
        return log
    data = json.loads(json.dumps(case["codes"]))
    log = run(data)
    check(data == case["codes"], "table of codes changed")
    kept, last, count = [], {}, [0, 0]
    for code, is_error, args in case["calls"]:
        args = dict(zip(PARAMS, args))
        desc = case["codes"][code]["description"]
        lang = case["lang"] if case["lang"] in desc else "en" if "en" in desc else sorted(desc)[0]
        text = lang + "-text " + " ".join(args[p] for p in case["codes"][code].get("params", []))
        m = "[%s] %s" % (code, text)
        if int(code[1:4]) < 200:
            m += " (see https://ocfl.io/%s/spec/#%s)" % (case["spec"], code[:4])
        last[code] = m
        count[is_error] += 1
        if case["errors"] if is_error else case["warnings"]:
            kept.append(m)
    check(log.messages == kept, "messages %r, expected %r", log.messages, kept)
    check(log.codes == last, "codes %r, expected %r", log.codes, last)
    check([log.num_warnings, log.num_errors] == count, "counts %r, expected %r", [log.num_warnings, log.num_errors], count)
    for prefix in ("", "> "):
        check(log.status_str(prefix) == "\n".join(prefix + m for m in sorted(kept)), "status %r", log.status_str(prefix))
    # What one logger is given does not turn up in another
    other = ValidationLogger(log_warnings=True)
    other.error("E003e", path="here")
    check(other.messages == ["[E003e] " + json.load(open(os.path.join(os.path.dirname(ocfl.__file__), "data/validation-errors.json"), encoding="utf-8"))["E003e"]["description"]["en"] % "here" + " (see https://ocfl.io/%s/spec/#E003)" % ocfl.DEFAULT_SPEC_VERSION],
          "usual logger after one with its own table: %r", other.messages)
    ctx.event(case["lang"])
    ctx.nontrivial(len(kept) > 1)


PARTS = [
    Part("several", cases, several, quick=3000, thorough=30000, rule="at least two independent faults"),
    Part("any_report", any_cases, any_report, quick=3000, thorough=40000, rule="some error is reported"),
    Part("prior_report", c15.cases, prior_report, quick=2500, thorough=25000, rule="the departure says what a message must name"),
    Part("root_report", root_cases, root_report, quick=1500, thorough=15000, rule="something is reported"),
    Part("logger", logger_cases, logger, quick=2000, thorough=20000, rule="at least two messages kept"),
]
