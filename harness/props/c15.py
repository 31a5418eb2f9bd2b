"""C15: inventories of earlier versions are held to the rules and to agreement with the root inventory."""
import copy
import os

import ocfl
from hypothesis import strategies as st

import gen
import objgen
import ref
from core import HarnessError, Part, check
from props import c12
from props.c10 import Digits, pick


class Obj:
    def __init__(self, case):
        self.case = case
        self.about = None       # strings that a message about the change must have
        self.placed = objgen.layout_content(case)
        self.n = len(case["hist"])
        self.invs = [objgen.inventory(case, k, self.placed) for k in range(self.n)]
        self.present = [k for k in range(self.n - 1) if not case["noinv"][k]]
        self.cd = case["cd"] or "content"
        self.spec = case["spec"]
        self.content = {p: d for f in self.placed for p, d in f.items()}

    def tree(self):
        """The object with the inventories as they are now."""
        tree = objgen.make(self.case)
        del tree["0=ocfl_object_" + self.case["spec"]]
        tree["0=ocfl_object_" + self.spec] = ("ocfl_object_%s\n" % self.spec).encode()
        for k in self.present + [self.n - 1]:
            inv = self.invs[k]
            data = objgen.dump(self.case, inv)
            alg = self.case["alg"] if k == self.n - 1 else self.case["valg"][k]
            where = [objgen.vdir(self.case, k) + "/"] if k < self.n - 1 else [""] + ([] if self.case["noinv"][k] else [objgen.vdir(self.case, k) + "/"])
            for prefix in where:
                tree[prefix + "inventory.json"] = data
                tree[prefix + "inventory.json." + alg] = objgen.sidecar(self.case, data, alg)
        return tree


# Each takes (o, k, r), changes o.invs (k is a prior version whose inventory is present) and gives the
# codes one of which must be reported, or None.

def p_id(o, k, r):
    o.invs[k]["id"] = ["info:other", o.invs[k]["id"] + "x", o.invs[k]["id"].swapcase(), " " + o.invs[k]["id"]][r % 4]
    o.about = [objgen.vdir(o.case, k), o.invs[k]["id"], o.case["id"]]
    return {"E037b"} if o.invs[k]["id"] != o.case["id"] else None


def p_content_directory(o, k, r):
    new = ["other", o.cd + "x", "Data"][r % 3]
    inv = o.invs[k]
    if r % 2 == 0 and not any(o.placed[: k + 1]):
        inv["contentDirectory"] = new
        o.about = [objgen.vdir(o.case, k)]
        return {"E020", "E019"}
    inv["contentDirectory"] = new
    inv["manifest"] = {d: [p.replace("/" + o.cd + "/", "/" + new + "/", 1) for p in ps] for d, ps in inv["manifest"].items()}
    inv.pop("fixity", None)
    o.about = [objgen.vdir(o.case, k), new, o.cd]
    return {"E020"}


def p_content_directory_unset(o, k, r):
    """contentDirectory set in the root only, not in the first version."""
    if not o.case["cd"] or 0 not in o.present or any(o.placed[:1]):
        return None
    del o.invs[0]["contentDirectory"]
    return {"E019", "E020"} if o.case["cd"] != "content" else {"E019"}


def p_later_spec(o, k, r):
    """A prior inventory with a later specification version than the object."""
    o.spec = "1.0"
    for i in range(o.n):
        o.invs[i]["type"] = "https://ocfl.io/%s/spec/#inventory" % ("1.1" if i == k else "1.0")
    return {"E103"}


def p_spec_goes_back(o, k, r):
    ks = [i for i in o.present if i > 0]
    if not ks:
        return None
    k = ks[r % len(ks)]
    before = [i for i in o.present if i < k]
    if not before:
        return None
    o.spec = "1.1"
    for i in range(o.n):
        o.invs[i]["type"] = "https://ocfl.io/%s/spec/#inventory" % ("1.0" if i == k else "1.1")
    return {"E103"}


def _state(o, k, r):
    """State of some version in prior inventory k that has something in it."""
    vs = [v for v, b in o.invs[k]["versions"].items() if b["state"]]
    return o.invs[k]["versions"][vs[r % len(vs)]]["state"] if vs else None


def p_logical_renamed(o, k, r):
    s = _state(o, k, r)
    if s is None:
        return None
    ps = s[pick(s, r // 3)]
    i = r % len(ps)
    ps[i] += [".x", " ", "~"][r % 3]
    o.about = [objgen.vdir(o.case, k), ps[i]]
    return {"E066b"}


def p_logical_removed(o, k, r):
    s = _state(o, k, r)
    if s is None:
        return None
    d = pick([d for d in s if len(s[d]) > 1], r)
    if d is None:
        return None
    o.about = [objgen.vdir(o.case, k), s[d].pop(r % len(s[d])), "root"]
    return {"E066b"}


def p_logical_added(o, k, r):
    s = _state(o, k, r)
    if s is None:
        return None
    s[pick(s, r // 3)].append("never-there-before")
    o.about = [objgen.vdir(o.case, k), "never-there-before"]
    return {"E066b"}


def p_logical_swapped(o, k, r):
    """Two logical paths exchanged: same paths, same digests, other content."""
    ss = [b["state"] for b in o.invs[k]["versions"].values() if len(b["state"]) > 1]
    if not ss:
        return None
    s = ss[r % len(ss)]
    ds = sorted(s)
    i = r % len(ds)
    a, b = ds[i], ds[i - 1]
    s[a], s[b] = s[b], s[a]
    o.about = [objgen.vdir(o.case, k)]
    return {"E066c"}


def p_logical_moved(o, k, r):
    """A logical path with other content that also occurs in the same inventory."""
    inv = o.invs[k]
    ss = [b["state"] for b in inv["versions"].values() if b["state"]]
    if not ss or len(inv["manifest"]) < 2:
        return None
    s = ss[r % len(ss)]
    a = pick(s, r)
    b = pick([d for d in inv["manifest"] if d != a], r // 5)
    lp = s[a].pop(r % len(s[a]))
    if not s[a]:
        del s[a]
    s.setdefault(b, []).append(lp)
    o.about = [objgen.vdir(o.case, k), lp] + sorted(inv["manifest"][b])
    used = {d for x in inv["versions"].values() for d in x["state"]}
    if set(inv["manifest"]) - used:
        return None
    return {"E066c"}


def p_whole_history(o, k, r):
    """The inventory of the head version in place of an earlier one."""
    o.invs[k] = copy.deepcopy(o.invs[o.n - 1])
    if o.case["valg"][k] != o.case["alg"]:
        return None
    return {"E066a"}


def p_earlier_inventory(o, k, r):
    """The inventory of an earlier version in place of that for the version."""
    ks = [i for i in o.present if i > 0]
    if not ks:
        return None
    k = ks[r % len(ks)]
    js = [j for j in range(k) if o.case["valg"][j] == o.case["valg"][k]]
    if not js:
        return None
    o.invs[k] = copy.deepcopy(o.invs[js[(r // 3) % len(js)]])
    o.about = [objgen.vdir(o.case, k), o.invs[k]["head"]]
    return {"E040"}


def p_other_padding(o, k, r):
    """Version numbers with other zero padding than the rest of the object."""
    inv = o.invs[k]
    width = [2, 4][r % 2]
    new = {v: ("v%0*d" % (width if not o.case["pad"] else o.case["pad"] + 1, int(v[1:]))) for v in inv["versions"]}
    inv["versions"] = {new[v]: b for v, b in inv["versions"].items()}
    inv["head"] = new[inv["head"]]
    inv["manifest"] = {d: [new[p.split("/")[0]] + "/" + p.split("/", 1)[1] for p in ps] for d, ps in inv["manifest"].items()}
    inv.pop("fixity", None)
    return {"E066a"}


def p_extra_version(o, k, r):
    """A prior inventory with a version that is not in the root inventory."""
    inv = o.invs[k]
    for i in range(k + 1, o.n + 1 + r % 2):
        inv["versions"][objgen.vdir(o.case, i)] = copy.deepcopy(inv["versions"][objgen.vdir(o.case, k)])
        inv["head"] = objgen.vdir(o.case, i)
    o.about = [inv["head"]]
    return {"E066a"}


def p_wrong_manifest_digest(o, k, r):
    """Wrong digest for a content file, consistent within the inventory."""
    inv = o.invs[k]
    d = pick([d for d in inv["manifest"]], r)
    if d is None:
        return None
    wrong = ("0" if d[0] != "0" else "1") + d[1:]
    if wrong.lower() in {x.lower() for x in inv["manifest"]}:
        return None
    p = inv["manifest"][d][0]
    o.about = [objgen.vdir(o.case, k), o.case["valg"][k], wrong, p, ref.digest(o.case["valg"][k], o.content[p])]
    inv["manifest"][wrong] = inv["manifest"].pop(d)
    for b in inv["versions"].values():
        if d in b["state"]:
            b["state"][wrong] = b["state"].pop(d)
    return {"E092a"}


def p_wrong_fixity(o, k, r):
    if not o.content:
        return None
    inv = o.invs[k]
    mine = [p for ps in inv["manifest"].values() for p in ps]
    p = pick(mine, r)
    if p is None:
        return None
    falg = gen.FIXITY_DIGESTS[r % len(gen.FIXITY_DIGESTS)]
    if falg == o.case["valg"][k] or falg == o.case["alg"]:
        pass
    d = ref.digest(falg, o.content[p])
    o.about = [objgen.vdir(o.case, k), falg, p, d]
    inv["fixity"] = {falg: {("0" if d[0] != "0" else "1") + d[1:]: [p]}}
    return {"E093a"}


def p_missing_from_manifest(o, k, r):
    """A later prior manifest lacks a file of an earlier one."""
    ks = [i for i in o.present if any(j < i for j in o.present)]
    if not ks:
        return None
    k = ks[r % len(ks)]
    first = [j for j in o.present if j < k]
    early = {p for j in first for ps in o.invs[j]["manifest"].values() for p in ps}
    inv = o.invs[k]
    d = pick([d for d, ps in inv["manifest"].items() if len(ps) > 1 and set(ps) & early], r)
    if d is None:
        return None
    p = pick(set(inv["manifest"][d]) & early, r)
    inv["manifest"][d].remove(p)
    o.about = [objgen.vdir(o.case, k), p]
    for b in inv.get("fixity", {}).values():
        for fd in list(b):
            b[fd] = [x for x in b[fd] if x != p]
    return {"E023b"}


def p_root_lacks_path(o, k, r):
    """The root manifest lacks one of several copies of some content that an earlier inventory lists."""
    root = o.invs[o.n - 1]
    mine = {p for ps in o.invs[k]["manifest"].values() for p in ps}
    d = pick([d for d, ps in root["manifest"].items() if len(ps) > 1 and set(ps) & mine], r)
    if d is None:
        return None
    p = pick(set(root["manifest"][d]) & mine, r)
    root["manifest"][d].remove(p)
    o.about = [p]
    for b in root.get("fixity", {}).values():
        for fd in list(b):
            b[fd] = [x for x in b[fd] if x != p]
    return {"E023a", "E066c"}


def p_breach(o, k, r):
    """Any breach of the rules for inventories, in a prior inventory."""
    names = sorted(c12.MUTATIONS)
    i = (r // 7) % len(names)
    case = dict(o.case, hist=o.case["hist"][:k + 1])
    for name in names[i:] + names[:i]:
        if name in ("bad_alg", "wrong_alg", "no_alg"):     # these change what sidecar is looked for
            continue
        new = copy.deepcopy(o.invs[k])
        codes = c12.MUTATIONS[name](new, r, case)
        if codes is not None and new != o.invs[k]:
            o.invs[k] = new
            o.about = [objgen.vdir(o.case, k)]
            return codes
    return None


MUTATIONS = {f.__name__[2:]: f for f in list(globals().values()) if callable(f) and getattr(f, "__name__", "").startswith("p_")}


@st.composite
def cases(draw):
    return {"obj": draw(objgen.cases(need_content=True, min_versions=2, max_versions=4)),
            "mut": draw(st.sampled_from(sorted(MUTATIONS) + ["breach"] * 3)), "r": draw(st.integers(0, 10000))}


def build(case):
    """Name of the change, the object (an Obj) with it, codes one of which must be reported."""
    obj = dict(case["obj"], w011=None)
    if all(obj["noinv"][:-1]):
        obj["noinv"] = [False] + obj["noinv"][1:]
    names = sorted(MUTATIONS)
    i = names.index(case["mut"])
    for name in names[i:] + names[:i]:
        o = Obj(obj)
        before = copy.deepcopy(o.invs)
        r = Digits(case["r"])
        codes = MUTATIONS[name](o, o.present[r % len(o.present)], r)
        if codes is not None and o.invs != before:
            return name, o, codes
    raise HarnessError("no mutation applies")


def inconsistent(case, ctx):
    name, o, codes = build(case)
    objdir = objgen.write(os.path.join(ctx.dir(), "obj"), o.tree())
    passed, v = ocfl.Object().validate(objdir=objdir)
    got = {c for c in v.log.codes if c.startswith("E")}
    check(passed is False, "inconsistency (%s) in a prior inventory not detected", name)
    check(got & codes, "inconsistency (%s) in a prior inventory reported as %s, expected one of %s", name, sorted(got), sorted(codes))
    passed, v = ocfl.Object().validate(objdir=objdir, check_digests=False)
    check(passed is False or codes & {"E092a", "E093a"}, "inconsistency (%s) not detected without digest checks", name)
    ctx.event(name)
    ctx.nontrivial()


PARTS = [Part("inconsistent", cases, inconsistent, 5000)]
