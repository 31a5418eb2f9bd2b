"""Reference formulas for the storage layouts, written from their specifications."""
import hashlib

from hypothesis import strategies as st

N0002 = "0002-flat-direct-storage-layout"
N0003 = "0003-hash-and-id-n-tuple-storage-layout"
QUOTED = "nnnn-flat-quoted-storage-layout"
TUPLE = "nnnn-tuple-tree-layout"
UUID = "nnnn-uuid-quadtree"
ALIASES = {N0002: [N0002, "0002", "flat-direct"], N0003: [N0003, "0003"], QUOTED: [QUOTED, "flat-quoted"],
           TUPLE: ["nnnn-tuple-tree"], UUID: [UUID]}
ALNUM = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789"


class Unusable(Exception):
    """The identifier has no path in the layout."""


def pct(s, keep, space=None, upper=True):
    out = ""
    for c in s:
        if c in keep:
            out += c
        elif space is not None and c == " ":
            out += space
        else:
            out += "".join(("%%%02X" if upper else "%%%02x") % b for b in c.encode("utf-8"))
    return out


def pairtree(s):
    out = ""
    for b in s.encode("utf-8"):
        c = chr(b)
        if b < 0x21 or b > 0x7e or c in "\"*+,<=>?\\^|":
            out += "^%02x" % b
        else:
            out += {"/": "=", ":": "+", ".": ","}.get(c, c)
    return out


def path(name, ident, params=None):
    """Path for identifier under the layout called name (canonical) with params."""
    params = dict(DEFAULTS[name], **(params or {}))
    if name == N0002:
        if ident in ("", ".", "..") or "/" in ident:
            raise Unusable()
        return ident
    if name == N0003:
        h = hashlib.new(params["digestAlgorithm"], ident.encode("utf-8")).hexdigest()
        enc = pct(ident, ALNUM + "-_", upper=False)
        if len(enc) > 100:
            enc = enc[:100] + "-" + h
        n = params["tupleSize"]
        return "/".join([h[i * n:(i + 1) * n] for i in range(params["numberOfTuples"])] + [enc])
    if name == QUOTED:
        if ident in ("", ".", ".."):
            raise Unusable()
        return pct(ident, ALNUM + "_.-~", space="+")
    if name == TUPLE:
        if ident == "":
            raise Unusable()
        enc = pairtree(ident)
        n = params["tupleSize"]
        return "/".join([enc[i:i + n] for i in range(0, len(enc), n)] + [enc])
    if name == UUID:
        pre = params["prefix"]
        if not ident.startswith(pre):
            raise Unusable()
        parts = ident[len(pre):].split("-")
        if [len(p) for p in parts] != [8, 4, 4, 4, 12] or any(c not in "0123456789abcdef" for p in parts for c in p):
            raise Unusable()
        h = "".join(parts)
        return "/".join(h[i:i + 4] for i in range(0, 32, 4))
    raise ValueError(name)


DEFAULTS = {N0002: {}, N0003: {"digestAlgorithm": "sha256", "tupleSize": 3, "numberOfTuples": 3}, QUOTED: {},
            TUPLE: {"tupleSize": 2}, UUID: {"prefix": "urn:uuid:"}}
DIGEST_LEN = {"sha512": 128, "sha256": 64, "sha1": 40, "md5": 32}


@st.composite
def params_for(draw, name):
    """None (use the defaults) or a dict of good parameters for the layout."""
    if draw(st.sampled_from([True, False, False])):
        return None
    if name == N0003:
        alg = draw(st.sampled_from(sorted(DIGEST_LEN)))
        size = draw(st.sampled_from([0, 1, 2, 3, 4, 5, 8, 31, 32]))
        if size == 0:
            n = 0
        else:
            n = min(32, DIGEST_LEN[alg] // size)
            n = draw(st.sampled_from([1, n, max(1, n // 2), min(n, 3)]))
        return {"digestAlgorithm": alg, "tupleSize": size, "numberOfTuples": n}
    if name == TUPLE:
        return {"tupleSize": draw(st.integers(2, 6))}
    if name == UUID:
        return {"prefix": draw(st.sampled_from(["urn:uuid:", "x", "info:uuid/", "URN:UUID:", "é", "urn:uuid:urn:uuid:", "0", "a b"]))}
    return None


HEX = st.text(alphabet="0123456789abcdef", min_size=32, max_size=32)


def dashed(h):
    return "-".join([h[:8], h[8:12], h[12:16], h[16:20], h[20:]])


def uuid_ids(prefix):
    """Identifiers for the UUID layout, some not quite right."""
    def spoil(t):
        h, how = t
        s = prefix + dashed(h)
        return {"ok": s, "upper": prefix + dashed(h).upper(), "nodash": prefix + h, "short": s[:-1], "long": s + "0",
                "newline": s + "\n", "digit": s[:-1] + "\u0663", "noprefix": dashed(h), "g": s[:-1] + "g", "slash": s + "/x",
                "dash": prefix + h[:4] + "-" + h[4:], "braces": prefix + "{" + dashed(h) + "}"}[how]
    return st.tuples(HEX, st.sampled_from(["ok"] * 8 + ["upper", "nodash", "short", "long", "newline", "digit", "noprefix", "g",
                                                     "slash", "dash", "braces"])).map(spoil)


SPECIAL = ["", ".", "..", "...", "/", "a/b", "../x", "../../etc", "/abs", "a//b", "a/../b", "a b", "a+b", "a%2Fb", "a%2fb", "%", "%%", "~",
           "a:b", "info:x", "http://example.org/a/b?c=d#e", "ark:/123/abc", "^", "^2f", "a^2fb", "=", "a=b", ",", "a,b", "+", "a+", "a.b", "é", "e\u0301",
           "日本語", "\U0001f600", "A", "a", "-", "_", "a-b_c", "\\", "a\\b", "\n", "a\n", "\t", "\x7f", "\x01", "\u00a0", "\u2028", "extensions",
           "a" * 99, "a" * 100, "a" * 101, "a" * 100 + "b", "a" * 97 + "/", "a" * 98 + "/", "a" * 99 + "/", "é" * 16, "é" * 17, "a" * 300,
           "%c3%a9", "%2e%2e", "ab", "abab", "abcd", "a" * 12, "object-01", "..hor/rib:le-$id", "*?\"<>|"]


def identifiers():
    return st.one_of(st.sampled_from(SPECIAL), st.sampled_from(SPECIAL),
                     st.text(alphabet=st.characters(exclude_categories=("Cs",)), max_size=8),
                     st.text(alphabet="ab./:%+=^, ~_-", max_size=10),
                     st.text(alphabet="a/é.", min_size=28, max_size=110))


def ids_for(name, params):
    if name == UUID:
        return st.one_of(uuid_ids((params or DEFAULTS[UUID])["prefix"]), uuid_ids((params or DEFAULTS[UUID])["prefix"]), identifiers())
    return identifiers()
