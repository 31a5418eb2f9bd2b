"""Generators of plain-data cases shared by the checks."""
import hashlib

from hypothesis import strategies as st

SPEC_DIGESTS = ["sha512", "sha256"]
LAX_DIGESTS = ["md5", "sha1", "blake2b-512", "blake2b-384", "blake2b-256", "blake2b-160"]
FIXITY_DIGESTS = ["md5", "sha1", "sha256", "sha512", "blake2b-512", "blake2b-384", "blake2b-256", "blake2b-160"]


# ---------------------------------------------------------------- content

def content(token):
    """Bytes for a content token: 's:<text>' literal text, 'L<n>:<k>' n pseudo-random bytes."""
    if token.startswith("s:"):
        return token[2:].encode("utf-8", "surrogatepass")
    n, k = token[1:].split(":")
    n = int(n)
    out = bytearray()
    i = 0
    while len(out) < min(n, 700000):
        out += hashlib.sha512(("%s/%d" % (k, i)).encode()).digest()
        i += 1
    while len(out) < n:  # a stretch that differs from those before it by its number only
        i += 1
        out += b"%012d" % i + out[:699988]
    return bytes(out[:n])


CONTENT_POOL = ["s:", "s:a", "s:b", "s:c\n", "s:hello world\n", "L100:1", "L100:2"]
BIG_POOL = ["L65536:1", "L65537:1", "L70000:3", "L262144:1", "L262145:2", "L600000:5", "L131072:4"]
HUGE_POOL = ["L1048577:1", "L4300000:2", "L5000001:3"]


def content_tokens(big=True):
    alts = [st.sampled_from(CONTENT_POOL), st.sampled_from(CONTENT_POOL), st.sampled_from(CONTENT_POOL)]
    if big:
        alts.append(st.integers(0, 39).flatmap(lambda i: st.sampled_from(HUGE_POOL if i == 33 else BIG_POOL)))
    alts.append(st.integers(0, 12).map(lambda i: "s:x%d" % i))
    return st.one_of(*alts)


# ---------------------------------------------------------------- names

SIMPLE = ["a", "b", "c", "d", "f.txt", "dir"]
TRICKY = [".hidden", "..a", "a..", "...", "a b", " ", " lead", "trail ", "%41", "a%2Fb", "%2E", "x+y", "~t", "~",
          "#h", "q?m", "*", "[z]", "{y}", "inventory.json", "inventory.json.sha512", "content", "v1", "v2", "extensions",
          "logs", "0=ocfl_object_1.0", "__2", "a__2", "-", "-r", "back\\slash", "q'uote", 'dq"', "new\nline", "\nlead",
          "tail\n", "tab\t", "é", "é", "日本", "😀", "A", "B", "c:", "a:b", "&", "=", "@", "$x", "`", ";", "|", "<", ">", ",", "\x7f",
          "\u2028", "ÿ", "\u00a0", "sha512", "x" * 60]


def _ok_segment(s):
    return s not in (".", "..", "") and len(s.encode("utf-8")) <= 100


def segments(tricky=True):
    alts = [st.sampled_from(SIMPLE), st.sampled_from(SIMPLE)]
    if tricky:
        alts.append(st.sampled_from(TRICKY))
        alts.append(st.text(alphabet=st.characters(exclude_characters="/\0", exclude_categories=("Cs",)),
                            min_size=1, max_size=6).filter(_ok_segment))
    return st.one_of(*alts)


def paths(tricky=True, maxdepth=3):
    """Relative paths as strings."""
    return st.lists(segments(tricky), min_size=1, max_size=maxdepth).map("/".join)


def compatible(path, others):
    """True if path neither equals, nor is an ancestor or descendant of, any other path."""
    for o in others:
        if path == o or path.startswith(o + "/") or o.startswith(path + "/"):
            return False
    return True


def _compat_list(ps):
    out = []
    for p in ps:
        if compatible(p, out):
            out.append(p)
    return out


def path_lists(min_size=0, max_size=6, tricky=True):
    """Lists of mutually compatible paths."""
    return st.lists(paths(tricky), min_size=min_size, max_size=max_size).map(_compat_list)


def trees(max_size=5, tricky=True, big=True, min_size=0):
    """Trees as lists of [path, token]."""
    def build(t):
        out = []
        seen = []
        for p, c in t:
            if compatible(p, seen):
                seen.append(p)
                out.append([p, c])
        return out
    return st.lists(st.tuples(paths(tricky), content_tokens(big)), min_size=min_size, max_size=max_size).map(build)


def tree_bytes(tree):
    return {p: content(c) for p, c in tree}


@st.composite
def histories(draw, min_versions=1, max_versions=4, max_paths=6, tricky=True, big=True, long_from=4):
    """A list of trees whose paths and contents overlap, as successive versions do."""
    pool = draw(st.lists(paths(tricky), min_size=1, max_size=max_paths))
    cont = draw(st.lists(content_tokens(big), min_size=1, max_size=4))
    nv = draw(st.sampled_from([k for k in (1, 2, 2, 3, 3, 3, 4, 5, 6) if min_versions <= k <= max_versions]))
    if max_versions >= long_from and draw(st.integers(0, 29)) == 23:
        nv = draw(st.integers(10, 12))  # version numbers of two digits
    hist = []
    prev = None
    for _ in range(nv):
        mode = draw(st.sampled_from(["fresh", "edit", "edit", "same"])) if prev else "fresh"
        if mode == "same":
            tree = [list(x) for x in prev]
        elif mode == "edit":
            cur = {p: c for p, c in prev}
            for _e in range(draw(st.integers(1, 3))):
                p = draw(st.sampled_from(pool))
                if p in cur and draw(st.booleans()):
                    del cur[p]
                elif compatible(p, [o for o in cur if o != p]):
                    cur[p] = draw(st.sampled_from(cont))
            tree = [[p, c] for p, c in cur.items()]
        else:
            cur = []
            for p in pool:
                if compatible(p, [x[0] for x in cur]) and draw(st.sampled_from([True, True, False])):
                    cur.append([p, draw(st.sampled_from(cont))])
            tree = cur
        hist.append(tree)
        prev = tree
    return hist


# ---------------------------------------------------------------- metadata and configuration

CREATED = ["2018-01-01T01:01:01Z", "2020-02-29T23:59:59+00:00", "1999-12-31T00:00:00-05:00",
           "2025-06-07T08:09:10.123456Z", "2000-10-10T10:10:10+05:30", "2021-01-01T12:34:56.7Z"]
MESSAGES = ["Initial", "", "Zwei\nLinien", "日本語 \"quoted\" \\ back", "a" * 200]
NAMES = ["Alice", "Bob Ω", "", "x"]
ADDRESSES = ["mailto:alice@example.org", "https://orcid.org/0000", "no-scheme", "info:x"]


def metadata(full=False):
    """Version metadata as [created, message, name, address]; an address comes only with a name."""
    def fix(t):
        c, m, n, a = t
        if n is None:
            a = None
        return [c, m, n, a]
    none = st.just(None)
    if full:
        return st.tuples(st.sampled_from(CREATED), st.sampled_from(MESSAGES), st.sampled_from(NAMES), st.sampled_from(ADDRESSES)).map(list)
    return st.tuples(st.one_of(st.sampled_from(CREATED), none), st.one_of(st.sampled_from(MESSAGES), none),
                     st.one_of(st.sampled_from(NAMES), none), st.one_of(st.sampled_from(ADDRESSES), none)).map(fix)


IDS = ["info:x", "http://example.org/obj/1", "ark:/12345/bcd987", "urn:uuid:0-1", "no-scheme id", "ö:日本", "x:%41 b", "a:" + "z" * 300]


def object_ids():
    return st.one_of(st.sampled_from(IDS), st.text(alphabet=st.characters(exclude_categories=("Cs",)), min_size=1, max_size=12))


CONTENT_DIRS = ["content", "content", "data", "stuff", "c d", "é", ".x", "v1", "inventory", "...", "a+b", "(x", "C"]


@st.composite
def configs(draw, lax=True, spec=True, fixity=True, contentdir=True):
    """Object configuration (keyword arguments of ocfl.Object)."""
    use_lax = lax and draw(st.sampled_from([False, False, False, True]))
    cfg = {
        "digest_algorithm": draw(st.sampled_from(LAX_DIGESTS if use_lax else SPEC_DIGESTS)),
        "content_directory": draw(st.sampled_from(CONTENT_DIRS)) if contentdir else "content",
        "content_path_normalization": draw(st.sampled_from(["uri", "uri", "md5", None])),
        "forward_delta": draw(st.sampled_from([True, True, False])),
        "dedupe": draw(st.sampled_from([True, True, False])),
        "lax_digests": use_lax,
        "spec_version": draw(st.sampled_from(["1.0", "1.1", "1.1"])) if spec else "1.1",
        "fixity": None,
    }
    if fixity:
        cfg["fixity"] = draw(st.one_of(st.none(), st.none(),
                                       st.lists(st.sampled_from(FIXITY_DIGESTS), min_size=0, max_size=3, unique=True)))
    return cfg
