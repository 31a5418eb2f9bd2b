"""C10: damage to a stored object is always detected by validation."""
import hashlib
import os

import ocfl
from hypothesis import strategies as st

import objgen
import ref
from core import HarnessError, Part, check


class Digits(int):
    """A number of which every use takes other digits, so that choices made with it are independent."""

    def __new__(cls, n):
        self = super().__new__(cls, n)
        self.uses = 0
        return self

    def __mod__(self, n):
        self.uses += 1
        return int.from_bytes(hashlib.blake2b(b"%d/%d" % (int(self), self.uses), digest_size=8).digest(), "big") % n

    def __floordiv__(self, n):
        return self


def pick(items, r):
    items = sorted(items)
    return items[r % len(items)] if items else None


class Obj:
    """A generated object with the things mutations need to know."""

    def __init__(self, case):
        self.case = case
        self.tree = objgen.make(case)
        self.placed = objgen.layout_content(case)
        self.content = {p: d for f in self.placed for p, d in f.items()}
        self.n = len(case["hist"])
        self.vdirs = [objgen.vdir(case, k) for k in range(self.n)]
        self.cd = case["cd"] or "content"
        self.alg = case["alg"]
        self.decl = "0=ocfl_object_" + case["spec"]
        self.invs = [k for k in range(self.n) if not case["noinv"][k]]

    def inv_alg(self, k):
        return self.alg if k == self.n - 1 else self.case["valg"][k]


# Each mutation changes o.tree in place and returns the set of codes of which one
# must be reported, or None if it does not apply to this object. r is a random number.

def m_flip(o, r):
    p = pick([p for p, d in o.content.items() if d], r)
    if p is None:
        return None
    data = bytearray(o.tree[p])
    i = [0, len(data) - 1, len(data) // 2, r % len(data)][r % 4]
    data[i] ^= 1 << (r % 8)
    o.tree[p] = bytes(data)
    return {"E092a"}


def m_truncate(o, r):
    p = pick([p for p, d in o.content.items() if d], r)
    if p is None:
        return None
    o.tree[p] = o.tree[p][:[0, len(o.tree[p]) - 1, len(o.tree[p]) // 2][r % 3]]
    return {"E092a"}


def m_append(o, r):
    p = pick(o.content, r)
    if p is None:
        return None
    o.tree[p] += [b"\n", b"\0", b"x", b" "][r % 4]
    return {"E092a"}


def m_swap(o, r):
    p = pick(o.content, r)
    q = pick([x for x in o.content if p and o.content[x] != o.content[p]], r // 7)
    if p is None or q is None:
        return None
    o.tree[p], o.tree[q] = o.tree[q], o.tree[p]
    return {"E092a"}


def m_delete_content(o, r):
    p = pick(o.content, r)
    if p is None:
        return None
    del o.tree[p]
    return {"E092b", "E093b", "E046a"}


def m_move_content(o, r):
    """Content file renamed: both missing and extra."""
    p = pick(o.content, r)
    if p is None:
        return None
    q = p + "_moved"
    o.tree[q] = o.tree.pop(p)
    return {"E092b", "E023a"}


def m_content_to_dir(o, r):
    """A directory with a file stands where the content file should be."""
    p = pick(o.content, r)
    if p is None:
        return None
    data = o.tree.pop(p)
    o.tree[p + "/inner"] = data
    return {"E092b", "E023a"}


def m_extra_content(o, r):
    v = o.vdirs[r % o.n]
    base = v + "/" + o.cd + "/"
    if o.tree.get(base[:-1], 0) is None:
        del o.tree[base[:-1]]
    name = [".hidden", "extra", "zz/extra", "inventory.json"][(r // 5) % 4]
    if any(p == base + name or p.startswith(base + name + "/") or p == base + name.split("/")[0] for p in o.tree):
        return None
    o.tree[base + name] = pick(o.content.values(), r) if (r % 3 == 0 and o.content) else b"unlisted"
    return {"E023a"}


def m_empty_dir(o, r):
    v = o.vdirs[r % o.n]
    base = v + "/" + o.cd
    if o.tree.get(base, 0) is None:
        del o.tree[base]
    name = base + "/" + ["empty-dir-x", "empty-x/y/z", ".empty-x"][(r // 5) % 3]
    o.tree[name] = None
    return {"E024"}


def m_extra_root_file(o, r):
    name = ["extra.txt", ".DS_Store", "inventory.json.bak", "v9", "content.txt", "INVENTORY.JSON", "inventory.json.md5",
            "inventory.jso", "v1x"][r % 9]
    if name in o.tree:
        return None
    o.tree[name] = b"x"
    return {"E001a"}


def m_extra_root_dir(o, r):
    name = ["extra", "content-x", ".git", "V1", "log", "extension", "v", "vx", "v1-old"][r % 9]
    if r % 2:
        o.tree[name + "/f"] = b"x"
    else:
        o.tree[name] = None
    return {"E001b"}


def m_extra_version_dir(o, r):
    pad = o.case["pad"]
    name = [objgen.vdir(o.case, o.n), objgen.vdir(o.case, o.n + 5), "v0", "v1" if pad else "v001"][r % 4]
    if name in o.vdirs:
        return None
    if r % 3:
        o.tree[name + "/" + o.cd + "/f"] = b"x"
    else:
        o.tree[name] = None
    return {"E046b", "E001b"}


def m_missing_version_dir(o, r):
    v = o.vdirs[r % o.n]
    for p in list(o.tree):
        if p == v or p.startswith(v + "/"):
            del o.tree[p]
    return {"E046a", "E092b"}


def m_extra_file_in_version(o, r):
    k = r % o.n
    v = o.vdirs[k]
    name = ["extra.txt", "inventory.json.md5", ".hidden", "inventory.json.sha1", "contents.txt", "0=ocfl_object_1.0"][(r // 3) % 6]
    if name == o.cd or v + "/" + name in o.tree:
        return None
    if o.tree.get(v, 0) is None:
        del o.tree[v]
    o.tree[v + "/" + name] = b"x"
    return {"E015"}


def m_cd_is_file(o, r):
    """A file stands where a version's content directory would be (version without content)."""
    ks = [k for k in range(o.n) if not o.placed[k]]
    if not ks:
        return None
    v = o.vdirs[ks[r % len(ks)]]
    o.tree.pop(v + "/" + o.cd, None)
    o.tree.pop(v, None)
    if any(p.startswith(v + "/" + o.cd + "/") for p in o.tree):
        return None
    o.tree[v + "/" + o.cd] = b"x"
    return set()


def m_version_is_file(o, r):
    v = o.vdirs[r % o.n]
    for p in list(o.tree):
        if p == v or p.startswith(v + "/"):
            del o.tree[p]
    o.tree[v] = b"x"
    return {"E046a", "E092b", "E001a"}


def m_no_root_sidecar(o, r):
    del o.tree["inventory.json." + o.alg]
    return {"E058a"}


def m_wrong_name_root_sidecar(o, r):
    other = "sha256" if o.alg == "sha512" else "sha512"
    o.tree["inventory.json." + other] = ref.digest(other, o.tree["inventory.json"]).encode() + b" inventory.json\n"
    if r % 2:
        del o.tree["inventory.json." + o.alg]
        return {"E058a"}
    return {"E001a"}


def _bad_sidecar(data, r):
    """(new content, codes)"""
    return [
        (b"", {"E061"}),
        (data[1:], {"E060"}),
        ((b"0" if data[:1] != b"0" else b"1") + data[1:], {"E060"}),
        (data.split()[0], {"E061"}),
        (data.replace(b"inventory.json", b"inventory.jsn"), {"E061"}),
        (data.split()[0] + b"inventory.json", {"E061"}),
        (b"inventory.json " + data.split()[0], {"E061", "E060"}),
        (b"\xff\xfe" + data, {"E061"}),
        (data.split()[0][:-1] + b" inventory.json", {"E060"}),
        (data.split()[0] + b"0 inventory.json", {"E060"}),
        (data.split()[0] + b" inventory.json extra", {"E061"}),
        (b" \n", {"E061"}),
        (b" " + data, {"E061"}),
        (b"\t" + data, {"E061"}),
    ][r % 14]


def m_bad_root_sidecar(o, r):
    p = "inventory.json." + o.alg
    o.tree[p], codes = _bad_sidecar(o.tree[p], r)
    return codes


def m_bad_version_sidecar(o, r):
    if not o.invs:
        return None
    k = o.invs[(r // 13) % len(o.invs)]
    p = o.vdirs[k] + "/inventory.json." + o.inv_alg(k)
    o.tree[p], codes = _bad_sidecar(o.tree[p], r)
    return codes


def m_no_version_sidecar(o, r):
    if not o.invs:
        return None
    k = o.invs[r % len(o.invs)]
    del o.tree[o.vdirs[k] + "/inventory.json." + o.inv_alg(k)]
    return {"E058a"}


def m_no_root_inventory(o, r):
    del o.tree["inventory.json"]
    if r % 2:
        del o.tree["inventory.json." + o.alg]
    return {"E063"}


def m_root_inventory_whitespace(o, r):
    """Root inventory changed (same meaning) without a new sidecar."""
    o.tree["inventory.json"] += b"\n"
    if r % 2 and o.n - 1 in o.invs:
        o.tree[o.vdirs[-1] + "/inventory.json"] += b"\n"
    return {"E060"}


def m_root_differs_from_head(o, r):
    if o.n - 1 not in o.invs:
        return None
    data = o.tree["inventory.json"]
    head = o.vdirs[-1] + "/"
    if r % 3 == 0:
        new = {["", head][r % 2]: data + b" "}
    else:       # the same length, and perhaps so long that the difference is not in the first block read
        fill = b" " * [1, 100, 65000, 262144, 262145, 530000][r // 3 % 6]
        i = [0, len(fill) - 1, len(fill) // 2][r // 18 % 3]
        new = {"": data + fill, head: data + fill[:i] + b"\n" + fill[i + 1:]}
    for prefix, data in new.items():
        o.tree[prefix + "inventory.json"] = data
        o.tree[prefix + "inventory.json." + o.alg] = objgen.sidecar(o.case, data, o.alg)
    return {"E064"}


def m_truncated_inventory(o, r):
    data = o.tree["inventory.json"]
    data = data[:[0, 1, len(data) // 2, len(data) - 1][r % 4]]
    o.tree["inventory.json"] = data
    o.tree["inventory.json." + o.alg] = objgen.sidecar(o.case, data, o.alg)
    return {"E033"}


def m_truncated_prior_inventory(o, r):
    ks = [k for k in o.invs if k != o.n - 1]
    if not ks:
        return None
    k = ks[r % len(ks)]
    p = o.vdirs[k] + "/inventory.json"
    data = o.tree[p][:[0, 1, len(o.tree[p]) // 2, len(o.tree[p]) - 1][r % 4]]
    o.tree[p] = data
    o.tree[p + "." + o.inv_alg(k)] = objgen.sidecar(o.case, data, o.inv_alg(k))
    return {"E033"}


def m_not_utf8_inventory(o, r):
    data = o.tree["inventory.json"].replace(b'"id"', b'"id\xff"', 1) if r % 2 else b"\xff\xfe\x00" + o.tree["inventory.json"]
    o.tree["inventory.json"] = data
    o.tree["inventory.json." + o.alg] = objgen.sidecar(o.case, data, o.alg)
    return {"E033"}


def m_no_declaration(o, r):
    del o.tree[o.decl]
    return {"E003a"}


def m_bad_declaration_content(o, r):
    d = o.tree[o.decl]
    o.tree[o.decl] = [b"", b"ocfl_object_1.2\n", b"ocfl_object\n", b"ocfl_1.0\n", d + b"more\n", b"x" + d, d[:-1], d + b"\n", b" " + d,
                      d[:-1] + b" \n", d.replace(b"_", b" "), d.replace(b"_", b"?", 1)][r % 12]
    return {"E007"}


def m_two_declarations(o, r):
    other = {"1.0": "1.1", "1.1": "1.0"}[o.case["spec"]]
    o.tree["0=ocfl_object_" + other] = b"ocfl_object_%s\n" % other.encode()
    return {"E003b"}


def m_unknown_declaration(o, r):
    name = ["0=ocfl_object_1.2", "0=ocfl_object_2.0", "0=ocfl_object", "0=ocfl_1.0", "0=", "0=ocfl_object_1.0x",
            "0=ocfl_object_1", "0=Ocfl_object_1.0", "0=ocfl_object_1.10"][r % 9]
    data = o.tree[o.decl]
    if r % 2:
        del o.tree[o.decl]
    o.tree[name] = name[2:].encode() + b"\n" if r % 3 else data
    return {"E006", "E003c", "E003b"}


def m_declaration_is_dir(o, r):
    del o.tree[o.decl]
    o.tree[o.decl + "/x"] = b"x"
    return set()


def m_declaration_not_utf8(o, r):
    o.tree[o.decl] = b"\xff\xfe" + o.tree[o.decl]
    return {"E007"}


def m_inventory_is_dir(o, r):
    del o.tree["inventory.json"]
    end, data = [("", None), ("/x", b"x")][r % 2]
    o.tree["inventory.json" + end] = data
    return {"E033", "E063"}


def m_sidecar_is_dir(o, r):
    p = "inventory.json." + o.alg
    if r % 3 and o.invs:
        k = o.invs[r % len(o.invs)]
        p = o.vdirs[k] + "/inventory.json." + o.inv_alg(k)
    del o.tree[p]
    end, data = [("", None), ("/x", b"x")][r % 2]
    o.tree[p + end] = data
    return {"E061", "E058a", "E001b"}


def m_many_declarations(o, r):
    for i in range(11 + r % 5):
        o.tree["0=x%d" % i] = b"x\n"
    return {"E006", "E003b"}


def m_version_inventory_is_dir(o, r):
    if not o.invs:
        return None
    k = o.invs[r % len(o.invs)]
    p = o.vdirs[k] + "/inventory.json"
    del o.tree[p]
    end, data = [("", None), ("/x", b"x")][r % 2]
    o.tree[p + end] = data
    return {"E033", "E064", "E058a"}


def m_file_in_extensions(o, r):
    if o.tree.get("extensions", 0) is None:
        del o.tree["extensions"]
    o.tree["extensions/" + ["file", ".x", "0001-digest-algorithms.json", "config.json"][r % 4]] = b"x"
    return {"E067"}


def m_extensions_is_file(o, r):
    for p in list(o.tree):
        if p == "extensions" or p.startswith("extensions/"):
            del o.tree[p]
    o.tree["extensions"] = b"x"
    return {"E001a"}


MUTATIONS = {f.__name__[2:]: f for f in list(globals().values()) if callable(f) and getattr(f, "__name__", "").startswith("m_")}
# Found without looking at the content of the files
STRUCTURAL = set(MUTATIONS) - {"flip", "truncate", "append", "swap", "bad_root_sidecar", "bad_version_sidecar",
                               "sidecar_is_dir",
                               "root_inventory_whitespace"}


@st.composite
def cases(draw):
    return {"obj": draw(objgen.cases(need_content=True)), "mut": draw(st.sampled_from(sorted(MUTATIONS))), "r": draw(st.integers(0, 10000))}


def damaged(case, ctx):
    o = Obj(case["obj"])
    names = sorted(MUTATIONS)
    i = names.index(case["mut"])
    for name in names[i:] + names[:i]:
        before = dict(o.tree)
        codes = MUTATIONS[name](o, Digits(case["r"]))
        if codes is not None:
            break
        o.tree = before
    else:
        raise HarnessError("no mutation applies")
    if o.tree == before:
        raise HarnessError("mutation %s changed nothing" % name)
    objdir = objgen.write(os.path.join(ctx.dir(), "obj"), o.tree)
    passed, v = ocfl.Object().validate(objdir=objdir)
    check(passed is False, "damage (%s) not detected", name)
    got = {c for c in v.log.codes if c.startswith("E")}
    check(v.log.num_errors > 0 and got, "invalid without any error reported (%s)", name)
    check(not codes or got & codes, "damage (%s) reported as %s, expected one of %s", name, sorted(got), sorted(codes))
    if name in STRUCTURAL:
        passed, v = ocfl.Object().validate(objdir=objdir, check_digests=False)
        check(passed is False, "damage (%s) not detected without digest checks", name)
    # ... whether or not messages are asked for
    passed, v = ocfl.Object().validate(objdir=objdir, log_warnings=False, log_errors=False)
    check(passed is False and not v.log.messages, "verdict or messages with logging off (%s)", name)
    ctx.event(name)
    ctx.nontrivial()


PARTS = [Part("damaged", cases, damaged, 5000)]
