"""C22: datetimes are read and written as W3C datetimes."""
from datetime import date, timedelta

from hypothesis import strategies as st

from core import Part, Raised, attempt, check
from ocfl.w3c_datetime import datetime_to_str, str_to_datetime

EPOCH = date(1970, 1, 1).toordinal()
MDAYS = [31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31]
DIGITS = "0123456789"


def leap(y):
    return y % 4 == 0 and (y % 100 != 0 or y % 400 == 0)


def mdays(y, m):
    return 29 if m == 2 and leap(y) else MDAYS[m - 1]


def _num(s, n):
    return len(s) == n and all(c in DIGITS for c in s)


def parse(s):
    """Reference reader: (seconds, fraction digits, offset seconds) of a W3C datetime (timezone optional), or None."""
    day, t, rest = s.partition("T")
    parts = day.split("-")
    if len(parts) > 3 or not _num(parts[0], 4) or not all(_num(p, 2) for p in parts[1:]):
        return None
    y = int(parts[0])
    mo = int(parts[1]) if len(parts) > 1 else 1
    dd = int(parts[2]) if len(parts) > 2 else 1
    if y < 1 or not 1 <= mo <= 12 or not 1 <= dd <= mdays(y, mo):
        return None
    base = (date(y, mo, dd).toordinal() - EPOCH) * 86400
    if not t:
        return base, "", 0
    if len(parts) != 3:
        return None
    # Timezone
    offset = 0
    if rest.endswith("Z"):
        rest = rest[:-1]
    elif len(rest) > 6 and rest[-6] in "+-":
        tz = rest[-5:]
        if not (_num(tz[:2], 2) and tz[2] == ":" and _num(tz[3:], 2)) or int(tz[:2]) > 23 or int(tz[3:]) > 59:
            return None
        offset = (int(tz[:2]) * 60 + int(tz[3:])) * 60 * (-1 if rest[-6] == "-" else 1)
        rest = rest[:-6]
    frac = ""
    if "." in rest:
        rest, frac = rest.split(".", 1)
        if frac == "" or not all(c in DIGITS for c in frac) or rest.count(":") != 2:
            return None
    hms = rest.split(":")
    if len(hms) not in (2, 3) or not all(_num(p, 2) for p in hms):
        return None
    h, mi = int(hms[0]), int(hms[1])
    se = int(hms[2]) if len(hms) == 3 else 0
    if h > 23 or mi > 59 or se > 59:
        return None
    return base + h * 3600 + mi * 60 + se, frac, offset


years = st.one_of(st.integers(1, 9999), st.sampled_from([1600, 1900, 1969, 1970, 1999, 2000, 2004, 2026, 2100, 9999, 1, 31, 12]))


@st.composite
def read_cases(draw):
    y = draw(years)
    mo = draw(st.sampled_from([2, 2, 1, 3, 4, 6, 9, 11, 12, 5, 7, 8, 10, 0, 13]))
    dd = draw(st.one_of(st.integers(1, 28), st.sampled_from([28, 29, 30, 31, 32, 0])))
    clean = draw(st.sampled_from([True, True, False]))     # keep to values that exist
    if clean:
        mo = max(1, min(mo, 12))
        dd = max(1, min(dd, mdays(y, mo)))
    s = "%04d-%02d-%02d" % (y, mo, dd)
    form = draw(st.sampled_from(["y", "ym", "ymd", "hm", "hms", "hms", "frac", "frac", "frac"]))
    if form == "y":
        s = s[:4]
    elif form == "ym":
        s = s[:7]
    elif form != "ymd":
        s += "T%02d:%02d" % (draw(st.sampled_from([0, 1, 9, 12, 22, 23, 23, 23 if clean else 24])), draw(st.sampled_from([0, 1, 30, 59, 59, 59 if clean else 60])))
        if form != "hm":
            s += ":%02d" % draw(st.sampled_from([0, 1, 30, 59, 59, 59 if clean else 60]))
        if form == "frac":
            s += "." + draw(st.text(alphabet="0123456789", min_size=1, max_size=7))
        s += draw(st.sampled_from(["Z", "Z", "+00:00", "-00:00", "", "+01:00", "-05:30", "+14:00", "+23:59", "-23:59"] +
                                  ([] if clean else ["+24:00", "-11:60", "+0100", "z", " Z"])))
    edit = None if clean else draw(st.sampled_from([None, None, "swap", "ins", "del", "end", "start"]))
    if edit in ("swap", "ins"):
        i = draw(st.integers(0, len(s) - 1))
        c = draw(st.sampled_from(list("0123456789-:T.Z+t zx\n") + ["٣", "０", "−"]))
        s = s[:i] + c + (s[i + 1:] if edit == "swap" else s[i:])
    elif edit == "del":
        i = draw(st.integers(0, len(s) - 1))
        s = s[:i] + s[i + 1:]
    elif edit in ("end", "start"):
        x = draw(st.sampled_from([" ", "\n", "Z", "x", ".5", "+00:00", "T", "-01"]))
        s = s + x if edit == "end" else x + s
    return {"s": s}


def read(case, ctx):
    s = case["s"]
    want = parse(s)
    got = attempt(str_to_datetime, s, expected=(ValueError,))
    if want is None:
        check(isinstance(got, Raised), "%r was read as %r", s, got)
        ctx.event("refused")
        ctx.nontrivial()
        return
    check(not isinstance(got, Raised), "%r was refused: %s", s, got)
    secs, frac, offset = want
    f = int(frac) / 10 ** len(frac) if frac else 0
    tol = 2e-6 if abs(secs) < 2**33 else 1e-4
    if offset == 0:
        check(abs(got - (secs + f)) < tol, "%r read as %r, expected %r", s, got, secs + f)
        if not f:
            check(got == secs, "%r read as %r, expected %r", s, got, secs)
    elif abs(got - (secs - offset + f)) < tol:
        pass
    else:
        # Known: the sign of the offset is reversed
        check(abs(got - (secs + offset + f)) < tol, "%r read as %r, expected %r", s, got, secs - offset + f)
        ctx.known_finding("reversed-offset")
    ctx.event("with offset" if offset else "without offset")
    ctx.nontrivial(bool(frac) or offset != 0 or "T" not in s)


@st.composite
def write_cases(draw):
    top = 2**31
    us = draw(st.one_of(st.integers(-top * 1000000, top * 1000000), st.sampled_from([0, 1, 999999, 1000000, -1, 59999999, 100000])))
    if draw(st.sampled_from([True, False, False])):
        us -= us % 1000000
    return {"us": us, "big": draw(st.integers(-62135596800, 253402300799))}


def text(secs):
    days, rem = divmod(secs, 86400)
    dt = date.fromordinal(EPOCH) + timedelta(days=days)
    return "%04d-%02d-%02dT%02d:%02d:%02d" % (dt.year, dt.month, dt.day, rem // 3600, rem % 3600 // 60, rem % 60)


def write(case, ctx):
    us = case["us"]
    secs, frac = divmod(us, 1000000)
    want = text(secs) + (".%06d" % frac if frac else "") + "Z"
    got = datetime_to_str(us / 1000000)
    check(got == want, "%r written as %s, expected %s", us / 1000000, got, want)
    back = str_to_datetime(got)
    check(abs(back - us / 1000000) < 1e-6, "%s read back as %r", got, back)
    check(datetime_to_str(back) == got, "%s not stable over a round trip: %s", got, datetime_to_str(back))
    if us >= 0:
        check(datetime_to_str(us / 1000000, no_fractions=True) == text(secs) + "Z", "%r without fractions: %s", us / 1000000,
              datetime_to_str(us / 1000000, no_fractions=True))
    big = case["big"]
    check(datetime_to_str(big) == text(big) + "Z", "%d written as %s", big, datetime_to_str(big))
    check(str_to_datetime(text(big) + "Z") == big, "%s read as %r", text(big) + "Z", str_to_datetime(text(big) + "Z"))
    now = datetime_to_str()
    check(parse(now) is not None and abs(str_to_datetime(now) - __import__("time").time()) < 300, "now is %s", now)
    ctx.nontrivial(frac != 0)


PARTS = [Part("read", read_cases, read, 20000), Part("write", write_cases, write, 10000)]
