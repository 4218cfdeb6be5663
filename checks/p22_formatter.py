"""P22: PartialFormatter."""
import string
from hypothesis import strategies as st
from vt.core import Check, event
from vt.util import check as ck, must_raise

check = Check("P22", quick_scale=6, shards=6, rule=(
    "Random format strings of literals and replacement fields (names, attribute and item access, conversions, format "
    "specifications, repeated, positional) with a random subset of the values given, missing or None. Oracle: fields with a "
    "value are replaced as str.format does and the others are reproduced character by character; formatting the "
    "result with the remaining values equals formatting everything at once. Non-trivial: some field filled and some left."))

NAMES = ["a", "b", "snap_nr", "file_nr", "x1"]
VALUES = [0, 3, -7, 12345, 1.5, "s", "", "file", 10 ** 12]
SPECS = {int: ["", "", "03d", "5d", "<6", "x", ".2f"], float: ["", "", ".3f", "8.2e", "g"], str: ["", "", ">8", "s", ".2"]}


@st.composite
def formats(draw):
    vals = {n: draw(st.sampled_from(VALUES)) for n in NAMES}
    given = {n: draw(st.sampled_from(["given", "given", "missing", "none"])) for n in NAMES}
    pieces = []
    for _ in range(draw(st.integers(1, 7))):
        if draw(st.booleans()):
            pieces.append(["lit", draw(st.sampled_from(["", "x", "/", "snap.", " ", "%d", ".hdf5", "_", ":", "!"]))])
        else:
            n = draw(st.sampled_from(NAMES + ["#0"]))
            acc = draw(st.sampled_from(["", "", "", "", ".real", "[0]"]))
            v = vals.get(n, 5)
            if acc == ".real" and isinstance(v, str) or acc == "[0]" and (not isinstance(v, str) or not v):
                acc = ""
            conv = draw(st.sampled_from(["", "", "", "!r", "!s", "!a"]))
            ty = str if conv or acc == "[0]" else type(v)
            pieces.append(["field", n, acc, conv, draw(st.sampled_from(SPECS[ty]))])
    return {"vals": vals, "given": given, "pieces": pieces, "ignore": draw(st.booleans())}


@check.sub(formats(), 3500, 150000)
def partial(c):
    from virgo.util.partial_formatter import PartialFormatter
    fmt, want, left, filled = "", "", 0, 0
    missing = [n for n in NAMES if c["given"][n] == "missing"]
    absent_used = False
    for p in c["pieces"]:
        if p[0] == "lit":
            fmt += p[1]
            want += p[1]
            continue
        _, n, acc, conv, spec = p
        nm = n[1:] if n[0] == "#" else n
        f = "{" + nm + acc + conv + (":" + spec if spec else "") + "}"
        fmt += f
        if n[0] == "#" or c["given"][n] == "given":
            want += f.format(5, **c["vals"])
            filled += 1
        else:
            want += f
            left += 1
            absent_used |= n in missing
    kw = {n: (c["vals"][n] if c["given"][n] == "given" else None) for n in NAMES if c["given"][n] != "missing"}
    pf = PartialFormatter(ignore_missing=True) if c["ignore"] else PartialFormatter()
    if absent_used and not c["ignore"]:
        must_raise(KeyError, pf.format, fmt, 5, **kw)
        return True
    got = pf.format(fmt, 5, **kw)
    ck(got == want, "%r with %r gives %r, expected %r" % (fmt, kw, got, want))
    ck(pf.vformat(fmt, (5,), kw) == want, "vformat differs")
    full = fmt.format(5, **c["vals"])
    rest = {n: c["vals"][n] for n in NAMES}
    ck(got.format(5, **rest) == full, "formatting twice gives %r, at once %r" % (got.format(5, **rest), full))
    if left:
        event("left some")
    return left > 0 and filled > 0


@st.composite
def nested_cases(draw):
    """Replacement fields in format specifications, automatic numbering and containers as values."""
    pieces = []
    for _ in range(draw(st.integers(1, 5))):
        pieces.append(draw(st.sampled_from([
            "{a:>{w}}", "{a:{w}d}", "{x:{w}.{q}f}", "{d[key]:{w}}", "{d[n][1]}", "{l[2]}", "{l[0]!r:>{w}}", "{}", "{:>{w}}", "lit",
            "{x:.{q}e}", "{t:%Y-%m}", "{c.real}", "{d[n]}"])))
    return {"pieces": pieces, "given": {n: draw(st.booleans()) for n in "axdltcwq"}, "none": draw(st.booleans()),
            "w": draw(st.integers(1, 12)), "q": draw(st.integers(0, 5)), "a": draw(st.integers(-99, 10 ** 6))}


@check.sub(nested_cases(), 1500, 60000)
def nested(c):
    import datetime
    from virgo.util.partial_formatter import PartialFormatter
    vals = {"a": c["a"], "x": c["a"] / 7, "d": {"key": "v%d" % c["a"], "n": [0, c["a"]]}, "l": ["p", 2.5, None], "c": 3 + 4j,
            "t": datetime.date(2000 + c["w"], 5, 17), "w": c["w"], "q": c["q"]}
    args = ("first", 2, "third", 4, 5)
    # a field which is filled in needs its width and precision too
    given = dict(c["given"])
    for p in c["pieces"]:
        for n in "axdltc":
            if p.startswith("{" + n) and given[n] or p.startswith("{:"):
                for k in "wq":
                    given[k] |= "{%s}" % k in p
    fmt = "".join(c["pieces"])
    kw = {n: vals[n] for n in vals if given[n]}
    if c["none"]:
        kw.update({n: None for n in vals if not given[n]})
    got = PartialFormatter(ignore_missing=not c["none"]).format(fmt, *args, **kw)
    full = fmt.format(*args, **vals)
    again = got.format(**vals)
    ck(again == full, "%r with %r gives %r; the rest gives %r, expected %r" % (fmt, kw, got, again, full))
    left = [p for p in c["pieces"] if p[:2] in ("{a", "{x", "{d", "{l", "{t", "{c") and not given[p[1]]]
    for p in left:
        ck(p[:2] in got, "%r was filled in: %r" % (p, got))
    return 0 < len(left) < len(c["pieces"])
