"""V01: dates, durations and floats denote what their format says
(Values, ValuesMC, ValuesTrace)."""
import math
import random
from datetime import datetime, timedelta
from lib import exc_name
from hachoir import field as hf
from hachoir.core import tools
from hachoir.stream import StringInputStream
import streams_h as sh

WIDTH = {"TimestampUnix32": 32, "TimestampUnix64": 64, "TimestampMac32": 32,
         "TimestampUUID60": 60, "TimestampWin64": 64, "TimedeltaWin64": 64,
         "TimedeltaMillisWin64": 64, "TimeDateMSDOS32": 32,
         "DateTimeMSDOS32": 32, "Float32": 32, "Float64": 64, "Float80": 80}
DOS = ("TimeDateMSDOS32", "DateTimeMSDOS32")
FLOATS = ("Float32", "Float64", "Float80")
US = 10 ** 7


def days(y, m, d, y0, m0, d0):
    return (datetime(y, m, d) - datetime(y0, m0, d0)).days


def bits(v, n):
    return [v >> (n - 1 - i) & 1 for i in range(n)]


def interesting(r, kind):
    """A stored number: limits of the format, ends of days, months and years,
    numbers which need all their bits."""
    w = WIDTH[kind]
    c = r.random()
    if c < .1:
        return r.choice((0, 1, (1 << w) - 1, 1 << w - 1, (1 << w - 1) - 1))
    if c < .2:
        return r.getrandbits(r.randint(1, w))
    if kind in ("TimedeltaWin64", "TimedeltaMillisWin64"):
        unit = US if kind == "TimedeltaWin64" else 1000
        v = r.choice((0, 0, 1, 59, 60, 3599, 3600, 86399, 86400, 365 * 86400,
                      r.randrange(10 ** 5), r.randrange(10 ** 9)))
        v = v * unit + r.choice((0, 1, 9, 10, 9999, 10000, unit - 1, unit // 2,
                                 r.randrange(unit)))
        if r.random() < .1:
            v = (10 ** 9 * 86400 * unit + r.choice((-1, 0, -unit, unit)))
        return v % (1 << w)
    y = r.choice((1582, 1600, 1601, 1700, 1899, 1900, 1904, 1969, 1970, 1971,
                  1972, 1980, 1999, 2000, 2001, 2004, 2024, 2037, 2038, 2040,
                  2100, 2400, 9999, r.randint(1583, 2110)))
    m = r.choice((1, 2, 2, 3, 12, r.randint(1, 12)))
    d = r.choice((1, 28, r.randint(1, 28)))
    if kind == "TimestampUUID60":
        t0, unit = (1582, 10, 15), US
    elif kind == "TimestampWin64":
        t0, unit = (1601, 1, 1), US
    elif kind == "TimestampMac32":
        t0, unit = (1904, 1, 1), 1
    else:
        t0, unit = (1970, 1, 1), 1
    s = days(y, m, d, *t0) + r.choice((0, 0, 1, 2, -1, 30))
    s = s * 86400 + r.choice((0, 0, 86399, -1, 1, r.randrange(86400)))
    if unit == 1 and r.random() < .15:
        s = 0x7fffffff + r.choice((-1, 0, 1, 2))
    v = s * unit
    if unit != 1:
        v += r.choice((0, 0, 1, 9, 10, US - 1, r.randrange(US)))
    return v % (1 << w)


def dos_parts(r):
    """(year, month, day, hour, minute, second/2)"""
    y = r.choice((0, 1, 20, 24, 100, 127, 120, r.randrange(128)))
    m = r.choice((0, 1, 2, 2, 12, 13, 15, r.randint(1, 12)))
    d = r.choice((0, 1, 28, 29, 30, 31, r.randrange(32)))
    h = r.choice((0, 23, 24, 31, r.randrange(24), r.randrange(24)))
    mi = r.choice((0, 59, 60, 63, r.randrange(60), r.randrange(60)))
    s = r.choice((0, 29, 30, 31, r.randrange(30), r.randrange(30)))
    if r.random() < .6:
        h, mi, s = h % 24, mi % 60, s % 30
        m = m % 13
        d = d % 29
    return y, m, d, h, mi, s


def stored(r, kind, en):
    """Bytes (or bits) of one field, as a list of bits in address order for
    a big endian set, or bytes for a little endian one."""
    if kind in DOS:
        y, m, d, h, mi, s = dos_parts(r)
        date = [(d, 5), (m, 4), (y, 7)]
        time = [(s, 5), (mi, 6), (h, 5)]
        order = time + date if kind == "TimeDateMSDOS32" else date + time
        if en == "BE":
            out = []
            for v, w in order:
                out += bits(v, w)
            return out
        v = sh_ = 0
        for x, w in order:
            v |= x << sh_
            sh_ += w
        return bits(int.from_bytes(v.to_bytes(4, "little"), "big"), 32)
    if kind in FLOATS:
        v = float_bits(r, kind)
    else:
        v = interesting(r, kind)
    w = WIDTH[kind]
    if en == "LE" and w % 8 == 0:
        v = int.from_bytes(v.to_bytes(w // 8, "little"), "big")
    return bits(v, w)


def float_bits(r, kind):
    sign = r.getrandbits(1)
    if kind == "Float80":
        c = r.random()
        if c < .05:
            return sign << 79
        e = r.choice((0, 1, -1, 15, 100, -100, 1022, 1024, 5000, 16383, -900,
                      r.randint(-900, 1022)))
        f = r.choice((0, 1, (1 << 63) - 1, 1 << 62, 1 << 11, 1 << 10,
                      (1 << 11) - 1, (44100 << 48) & ((1 << 63) - 1),
                      r.getrandbits(63), r.getrandbits(52) << 11))
        return sign << 79 | (e + 16383) << 64 | 1 << 63 | f
    ew, fw = (8, 23) if kind == "Float32" else (11, 52)
    e = r.choice((0, 1, (1 << ew) - 1, (1 << ew) - 2, (1 << ew - 1) - 1,
                  r.getrandbits(ew), r.getrandbits(ew)))
    f = r.choice((0, 1, (1 << fw) - 1, 1 << fw - 1, r.getrandbits(fw),
                  1 << r.randrange(fw)))
    return sign << ew + fw | e << fw | f


def field_job(seed):
    r = random.Random(seed)
    en = r.choice(("BE", "LE"))
    prog, data, addr = [], [], 0
    for _ in range(r.randint(1, 5)):
        kinds = [k for k in WIDTH if not (k == "Float80" and en == "LE")]
        kind = r.choice(kinds)
        gap = 0
        if kind in FLOATS or kind in DOS or en == "LE":
            gap = -addr % 8          # whole bytes
        elif r.random() < .4:
            gap = r.choice((1, 3, 4, 7, 8, 13))
        if kind in DOS and r.random() < .3:
            gap += 8
        if gap:
            prog.append(("", gap))
            data += bits(r.getrandbits(gap), gap)
            addr += gap
        prog.append((kind, addr))
        data += stored(r, kind, en)
        addr += WIDTH[kind]
    data += [0] * (-len(data) % 8)
    src = bytes(int("".join(map(str, data[i:i + 8])), 2)
                for i in range(0, len(data), 8))
    return {"name": "fields-%s" % seed, "en": en, "prog": prog, "src": src,
            "seed": seed, "deep": r.random() < .3}


def canon(v):
    """Recorded form of a value."""
    if v is None:
        return []
    if isinstance(v, datetime):
        return [v.year, v.month, v.day, v.hour, v.minute, v.second,
                v.microsecond]
    if isinstance(v, timedelta):
        return [v.days, v.seconds, v.microseconds]
    return [-1]


def fcanon(v):
    out = {"k": "none", "neg": 0, "e": 0, "f": [0] * 52}
    if v is None:
        return out
    if not isinstance(v, float):
        out["k"] = "type"
        return out
    out["neg"] = 1 if math.copysign(1, v) < 0 else 0
    if v != v:
        out["k"], out["neg"] = "nan", 0
    elif v in (math.inf, -math.inf):
        out["k"] = "inf"
    elif v == 0:
        out["k"] = "zero"
    else:
        m, e = math.frexp(abs(v))
        out["k"], out["e"] = "num", e - 1
        out["f"] = bits(int(m * (1 << 53)) - (1 << 52), 52)
    return out


def record_fields(job):
    r = random.Random("o" + job["seed"])
    endian = sh.EN[job["en"]]
    prog = job["prog"]

    def items(self):
        for kind, w in prog:
            if kind == "":
                yield hf.RawBits(self, "gap[]", w)
            else:
                yield getattr(hf, kind)(self, "f[]")

    class Inner(hf.FieldSet):
        def createFields(self):
            yield from items(self)

    class Root(hf.Parser):
        def createFields(self):
            if job["deep"]:
                yield Inner(self, "in")
            else:
                yield from items(self)
    Root.endian = endian
    decl = [(k, a) for k, a in prog if k]
    hdr = {"src": list(job["src"]),
           "flds": [{"k": k, "a": a, "w": WIDTH[k], "en": job["en"]}
                    for k, a in decl]}
    t = {"name": job["name"], "hdr": hdr, "ev": []}
    try:
        root = Root(StringInputStream(job["src"]))
        top = root["in"] if job["deep"] else root
        fl = [top["f[%d]" % i] for i in range(len(decl))]
    except Exception as err:
        t["ev"].append({"op": exc_name(err)})
        return t
    ops = [(i, op) for i, (k, _) in enumerate(decl)
           for op in ("place", "value", "value", "display", "raw", "bool")
           if not (op in ("raw", "bool") and (k in DOS or k in FLOATS))]
    r.shuffle(ops)
    for i, op in ops:
        f, kind = fl[i], decl[i][0]
        e = {"op": op, "i": i + 1}
        try:
            if op == "place":
                e["a"], e["w"] = f.absolute_address, f.size
            elif op == "value":
                e["v"] = (fcanon if kind in FLOATS else canon)(f.value)
            elif op == "raw":
                e["text"] = f.raw_display
            elif op == "bool":
                e["b"] = bool(f)
            elif kind in FLOATS:
                text = f.display
                e["v"] = fcanon(None if text == "None" else float(text))
            else:
                e["text"] = f.display
        except Exception as err:
            e = {"op": exc_name(err), "i": i + 1}
        t["ev"].append(e)
    return t


CONVERT = {"TimestampUnix32": "timestampUNIX", "TimestampMac32": "timestampMac32",
           "TimestampWin64": "timestampWin64", "TimestampUUID60": "timestampUUID60",
           "TimedeltaWin64": "durationWin64", "TimedeltaMillisWin64": "durationMillisWin64"}


def record_texts(seed):
    r = random.Random(seed)
    t = {"name": "texts-%s" % seed, "hdr": {"src": [], "flds": []}, "ev": []}

    def call(fn, f, **e):
        e.update(op="text", fn=fn)
        try:
            v = f()
            if isinstance(v, str):
                e["text"] = v
            elif isinstance(v, int):
                e["n2"] = v
            else:
                e["v"] = canon(v)
        except (ValueError, OverflowError):
            e["v"] = []
        except Exception as err:
            e["op"] = exc_name(err)
        t["ev"].append(e)

    def size():
        c = r.random()
        if c < .3:
            k = r.randint(0, 5)
            return max(0, 1024 ** k * r.choice((1, 2, 9, 10, 1023, 500))
                       + r.choice((0, -1, 1, 1024 ** k // 20, 1024 ** k // 2)))
        if c < .6:
            k = r.randint(0, 5)
            return max(0, 1000 ** k * r.choice((1, 2, 9, 10, 999, 500))
                       + r.choice((0, -1, 1, 1000 ** k // 20, 1000 ** k // 2)))
        if c < .7:
            return r.choice((9999, 10000, 10001, 999, 1000, 0, 1))
        return r.getrandbits(r.randint(1, 50))
    for _ in range(8):
        n = size()
        if n < 1 << 50:
            call("humanFilesize", lambda: tools.humanFilesize(n), bits=bits(n, 52))
        for fn in ("humanBitSize", "humanBitRate", "humanFrequency"):
            n = size()
            if n >= 10 ** 15:
                n %= 10 ** 15
            call(fn, lambda: getattr(tools, fn)(n), bits=bits(n, 52))
        ms = r.choice((r.randrange(1000), r.randrange(10 ** 5), 3600000, 59999,
                       60000, 86399999, 86400000, r.getrandbits(31) // 2))
        call("humanDuration", lambda: tools.humanDuration(ms), n=ms)
        ns = r.choice((r.randrange(2000), r.randrange(2 * 10 ** 6), 999, 1000,
                       999999, 10 ** 6, 10 ** 9, 999999999, r.randrange(2 * 10 ** 9)))
        call("humanDurationNanosec", lambda: tools.humanDurationNanosec(ns), n=ns)
        mode = r.choice((r.getrandbits(16), r.getrandbits(12), 0o100644,
                         0o40755, 0o1777, 0o4711, 0o2644))
        call("humanUnixAttributes", lambda: tools.humanUnixAttributes(mode),
             bits=bits(mode, 16))
        v, a = r.randrange(10 ** 6), r.choice((1, 2, 3, 4, 8, 16, 512, 2048))
        call("alignValue", lambda: tools.alignValue(v, a), n=v, a=a)
        call("paddingSize", lambda: tools.paddingSize(v, a), n=v, a=a)
        d = (datetime(r.choice((1, 999, 1582, 1970, 2000, 9999)), 1, 1)
             + timedelta(days=r.randrange(365), seconds=r.randrange(86400),
                         microseconds=r.choice((0, 1, 500, 999999, 120000))))
        strip = r.random() < .5
        call("humanDatetime", lambda: tools.humanDatetime(d, strip),
             v=canon(d), a=int(strip))
        kind = r.choice(sorted(CONVERT))
        x = interesting(r, kind)
        call(kind, lambda: getattr(tools, CONVERT[kind])(x),
             bits=bits(x, WIDTH[kind]))
    return t


def classify(t, k):
    ev = t["ev"][k]
    if "i" in ev:
        return "%s:%s" % (t["hdr"]["flds"][ev["i"] - 1]["k"], ev["op"])
    return "text:%s" % ev.get("fn")


def run(ctx):
    ctx.model_check("ValuesMC", "ValuesClock" + ctx.n("", "Big"), min_states=2000)
    ctx.model_check("ValuesMC", "ValuesDays" + ctx.n("", "Big"), min_states=100000)
    traces = ctx.pmap(record_fields, [
        field_job("%s-%d" % (ctx.seed, i)) for i in range(ctx.n(1000, 30000))])
    traces += ctx.pmap(record_texts, ["%s-%d" % (ctx.seed, i)
                                      for i in range(ctx.n(80, 2000))])
    ctx.validate("ValuesTrace", traces, classify=classify)
