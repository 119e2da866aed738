"""F09: showing a field (Show, ShowMC, ShowTrace)."""
import random
from lib import exc_name
from hachoir import field as hf
from hachoir.core import tools
from hachoir.core.text_handler import (textHandler, displayHandler,
                                       hexadecimal)
from hachoir.stream import StringInputStream
import streams_h as sh

INTS = {"UInt8": 8, "UInt16": 16, "UInt24": 24, "UInt32": 32, "UInt64": 64,
        "Int8": 8, "Int16": 16, "Int32": 32, "Int64": 64}


def codes(s):
    return [ord(c) for c in s] if isinstance(s, str) else list(s)


def text(r, n, wide):
    """A text with what escaping has to deal with."""
    pool = ["abc 12378", "\0\1\7\x08\t\n\r\x1b\x1f\x7f", "\"'\"'", "0123456789"]
    if wide > 127:
        pool.append("\xe9\xa0\xff\x80")
    if wide > 255:
        pool.append("\u20ac\u0100\uffff\U0001f600")
    out = ""
    while len(out) < n:
        p = r.choice(pool)
        k = r.randint(1, 4)
        out += "".join(r.choice(p) for _ in range(k))
    return out[:n]


def length(r, mark):
    return r.choice((1, 2, 5, mark - 1, mark, mark + 1, mark + 6, 3 * mark,
                     r.randint(1, 2 * mark)))


def content(r, n):
    c = r.random()
    if c < .3:
        return bytes(codes(text(r, n, 127)))
    if c < .5:
        return bytes(n)
    if c < .6:
        return b"x" * n
    if c < .7:
        return b"\\" * (n // 2) + b"\"" * (n - n // 2)
    return r.randbytes(n)


def item(r, number):
    """One field: constructor, arguments, its bytes (or bits) and what the
    specification needs to know of it."""
    k = r.choice(("int", "int", "bits", "bit", "char", "bytes", "bytes",
                  "string", "string", "string", "nullbytes", "padbytes",
                  "nullbits", "padbits", "broken"))
    f = {"k": k, "sg": False, "chars": [], "pat": [], "cls": [],
         "ad": [], "desc": {"t": "none", "text": []}}
    args, data, w = (), None, None
    if k == "int":
        cls = r.choice(sorted(INTS))
        w = INTS[cls]
        f["sg"] = cls[0] == "I"
        v = r.choice((0, 1, (1 << w) - 1, 1 << w - 1, r.getrandbits(w),
                      r.randrange(16)))
        data = [v >> (w - 1 - i) & 1 for i in range(w)]
    elif k in ("bits", "nullbits", "padbits"):
        cls = {"bits": r.choice(("Bits", "RawBits")), "nullbits": "NullBits",
               "padbits": "PaddingBits"}[k]
        w = r.choice((1, 4, 5, 8, 13, 32, 64, r.choice((127, 128, 129)),
                      r.choice((128, 130, 200, 255, 256, 257, 300))))
        args = (w,)
        f["cls"] = codes(cls)
        c = r.random()
        if c < .5:
            data = [0] * w
            if k != "bits" and r.random() < .4:
                data[r.randrange(w)] = 1
        else:
            data = [r.getrandbits(1) for _ in range(w)]
    elif k == "bit":
        cls, w = "Bit", 1
        data = [r.getrandbits(1)]
    elif k == "char":
        cls, w = "Character", 8
        v = r.choice((0, 7, 10, 39, 34, 65, 92, 127, 128, 255, r.getrandbits(8)))
        data = [v >> (7 - i) & 1 for i in range(8)]
    elif k in ("bytes", "nullbytes", "padbytes"):
        cls = {"bytes": r.choice(("RawBytes", "Bytes")),
               "nullbytes": "NullBytes", "padbytes": "PaddingBytes"}[k]
        n = length(r, 14)
        args = (n,)
        raw = content(r, n)
        if k == "nullbytes" and r.random() < .6:
            raw = bytes(n)
            if r.random() < .2:
                raw = raw[:-1] + b"\1"
        if k == "padbytes":
            p = r.choice((b"\0", b"ab", b"\xff", b"'\n", b"abc"))
            f["pat"] = list(p)
            if r.random() < .7:
                raw = (p * n)[:n]
            if r.random() < .2:
                f["pat"] = []
    elif k == "string":
        n = length(r, 40)
        cs = r.choice((None, "ASCII", "ISO-8859-1", "UTF-8", "UTF-16-LE",
                       "UTF-16-BE"))
        t = text(r, n, {None: 127, "ASCII": 127, "ISO-8859-1": 255}.get(cs, 1 << 20))
        kind = r.choice(("CString", "String", "PascalString32"))
        if kind == "CString" and cs and cs.startswith("UTF-16"):
            kind = "String"
        if kind == "CString":
            t = t.replace("\0", "\2")
        f["chars"] = codes(t)
        raw = t.encode(cs or "ASCII")
        if kind == "CString":
            raw += b"\0"
            args = ()
        elif kind == "String":
            args = (len(raw),)
        else:
            args = ()
            f["prefix"] = len(raw)
        cls = kind
        f["charset"] = cs
    elif k == "broken":
        cls, w = "Broken", 8
        data = [0] * 8
    if data is None:
        if "prefix" in f:
            raw = f["prefix"].to_bytes(4, "big") + raw
        data = [b >> (7 - i) & 1 for b in raw for i in range(8)]
        w = len(data)
        f["whole"] = True
    # description
    c = r.random()
    d = text(r, r.randint(1, 20), 1 << 20)
    if c < .2:
        f["desc"] = {"t": "given", "text": codes(d)}
    elif c < .4:
        f["desc"] = {"t": "made", "text": codes(d)}
    elif c < .5:
        f["desc"] = {"t": "fails", "text": []}
    elif k in ("bytes", "padbytes", "padbits", "nullbytes", "nullbits"):
        f["desc"] = {"t": "given", "text": codes(
            {"bytes": "Raw data", "padbytes": "Padding", "padbits": "Padding"}.get(k, ""))}
    if k in ("nullbytes", "nullbits") and f["desc"]["t"] == "given" and not f["desc"]["text"]:
        f["desc"] = {"t": "none", "text": []}
    # adapters
    if k != "broken" and r.random() < .5:
        number_like = (k in ("int", "bits", "nullbits", "padbits") and w <= 64
                       and not f["sg"])
        val = int("".join(map(str, data)), 2) if number_like else None
        for _ in range(r.choice((1, 1, 2, 3))):
            t = r.choice(("enum", "enum", "enum", "hex", "const", "key", "fail"))
            if t == "hex" and not number_like:
                t = "enum"
            if t == "key" and k in ("bit", "bytes", "nullbytes", "padbytes"):
                t = "const"
            a = {"t": t, "how": "", "tab": [], "text": []}
            if t == "const":
                a["text"] = codes(text(r, r.randint(0, 8), 1 << 20))
            if t == "enum":
                a["how"] = r.choice(("id", "id", "id", "lookup", "fail")
                                    + (("half", "low") * 2 if number_like and w > 4 else ()))
                keys = []
                if number_like:
                    keys = [val, val >> 1, val & 15, r.getrandbits(w), 0, 1]
                a["keys"] = r.sample(keys, r.randint(0, min(3, len(keys)))) if keys else None
                a["hit"] = r.random() < .6
                # a table may also be a list, and an entry empty
                a["list"] = r.randint(1, 20) if number_like and r.random() < .3 else 0
                a["void"] = r.random() < .1
            f["ad"].append(a)
    return {"f": f, "cls": cls, "args": args, "data": data, "w": w}


def job(seed):
    r = random.Random(seed)
    return {"seed": seed, "name": "show-%s" % seed, "en": r.choice(("BE", "LE")),
            "n": r.randint(1, 6)}


def build(j):
    r = random.Random("i" + j["seed"])
    data, items, addr = [], [], 0
    for n in range(j["n"]):
        it = item(r, n)
        whole = it["f"].pop("whole", False)
        if it["f"]["k"] in ("int", "char") and r.random() < .5:
            whole = True
        if (whole or j["en"] == "LE") and addr % 8:
            gap = -addr % 8
            items.append({"gap": gap})
            data += [0] * gap
            addr += gap
        it["f"]["a"], it["f"]["w"] = addr, it["w"]
        d = it["data"]
        if j["en"] == "LE" and "prefix" in it["f"]:
            d = d[24:32] + d[16:24] + d[8:16] + d[0:8] + d[32:]
        if j["en"] == "LE" and it["f"]["k"] in ("int", "bits", "nullbits",
                                                "padbits") and it["w"] % 8 == 0:
            d = [b for i in range(it["w"] - 8, -1, -8) for b in d[i:i + 8]]
        data += d
        addr += it["w"]
        items.append(it)
    data += [0] * (-len(data) % 8)
    src = bytes(int("".join(map(str, data[i:i + 8])), 2)
                for i in range(0, len(data), 8)) + b"tail"
    return items, src, r


def fill_tables(it, value_key):
    """Enum tables: entries for the given keys (dictionary of the code, and
    the same in the form of the specification)."""
    for a in it["f"]["ad"]:
        if a["t"] != "enum":
            continue
        d = {}
        keys = a.pop("keys")
        hit = a.pop("hit")
        size, void = a.pop("list"), a.pop("void")
        if size:
            keys = list(range(size))
        if keys is None:
            keys = [value_key[0]] if hit else []
            forms = {value_key[0]: value_key[1]} if hit else {}
        else:
            forms = {k: codes(str(k)) for k in keys}
        for n, k in enumerate(dict.fromkeys(keys)):
            d[k] = "" if void else "entry-%d" % n
            a["tab"].append({"key": forms[k], "text": codes(d[k])})
        a["dict"] = [d[k] for k in keys] if size else d


class Broken(hf.Bits):
    def __init__(self, parent, name, description=None):
        hf.Bits.__init__(self, parent, name, 8, description)

    def createValue(self):
        raise ValueError("broken")


def boom(*args):
    raise ValueError("broken handler")


def adapt(f, it):
    for a in it["f"]["ad"]:
        t = a["t"]
        if t == "enum":
            how = a["how"]
            if how == "id":
                hf.Enum(f, a["dict"])
            elif how == "half":
                hf.Enum(f, a["dict"], lambda v: v // 2)
            elif how == "low":
                hf.Enum(f, a["dict"], lambda v: v & 15)
            elif how == "lookup":
                hf.Enum(f, a["dict"], lambda v: {}[v])
            else:
                hf.Enum(f, a["dict"], lambda v: boom())
        elif t == "hex":
            textHandler(f, hexadecimal)
        elif t == "const":
            s = "".join(map(chr, a["text"]))
            textHandler(f, lambda field, s=s: s)
        elif t == "key":
            displayHandler(f, lambda v: "[%s]" % v)
        else:
            r = len(it["data"]) % 2
            (textHandler if r else displayHandler)(f, boom)
    return f


def make(parent, it, n):
    f = it["f"]
    cls = Broken if it["cls"] == "Broken" else getattr(hf, it["cls"])
    d = f["desc"]
    kw = {}
    s = "".join(map(chr, d["text"]))
    if d["t"] == "given" and s != "Padding" and s != "Raw data":
        kw["description"] = s
    elif d["t"] in ("made", "fails"):
        kw["description"] = None
    if f["k"] == "string":
        kw["charset"] = f["charset"]
    if f["k"] in ("padbytes", "padbits"):
        p = bytes(f["pat"])
        kw["pattern"] = (p or None) if f["k"] == "padbytes" else (
            f["pat"][0] if f["pat"] else None)
    field = cls(parent, "f[]", *it["args"], **kw)
    if d["t"] == "made":
        field.createDescription = lambda: s
    elif d["t"] == "fails":
        field.createDescription = boom
    return adapt(field, it)


def key(f, v):
    """Value in the form of the specification."""
    if isinstance(v, bool):
        return codes(str(v))
    if isinstance(v, int):
        return codes(str(v))
    return codes(v)


def record(j):
    items, src, r = build(j)
    real = [it for it in items if "gap" not in it]
    for it in real:
        f = it["f"]
        if f["k"] == "padbits":
            f["pat"] = r.choice(([0], [0], []))
        c = it["data"]
        k = f["k"]
        if k == "string":
            v = "".join(map(chr, f["chars"]))
        elif k == "bit":
            v = bool(c[0])
        elif k == "char":
            v = chr(int("".join(map(str, c)), 2))
        elif k in ("bytes", "nullbytes", "padbytes"):
            v = bytes(int("".join(map(str, c[i:i + 8])), 2)
                      for i in range(0, len(c), 8))
        else:
            v = int("".join(map(str, c)), 2)
            if f["sg"] and c[0]:
                v -= 1 << len(c)
        fill_tables(it, (v, key(None, v)))

    class Root(hf.Parser):
        endian = sh.EN[j["en"]]

        def createFields(self):
            n = 0
            for it in items:
                if "gap" in it:
                    yield hf.RawBits(self, "gap[]", it["gap"])
                else:
                    yield make(self, it, n)
                    n += 1
            yield hf.RawBytes(self, "tail[]", 2)
            yield hf.RawBytes(self, "tail[]", 2)
    root = Root(StringInputStream(src))
    flds = []
    for it in real:
        f = {k: v for k, v in it["f"].items() if k not in ("charset", "prefix")}
        f["ad"] = [{k: v for k, v in a.items() if k != "dict"} for a in f["ad"]]
        flds.append(f)
    t = {"name": j["name"], "hdr": {"src": list(src), "en": j["en"],
                                    "flds": flds}, "ev": []}
    try:
        got = [root["f[%d]" % i] for i in range(len(real))]
    except Exception as err:
        t["ev"].append({"op": exc_name(err), "i": 1, "grew": 0, "text": [],
                        "none": False})
        return t
    ops = [(i, op) for i in range(len(real))
           for op in ("value", "display", "raw", "desc", "has", "place", "str")]
    ops += r.choices(ops, k=len(ops))
    r.shuffle(ops)
    for i, op in ops:
        f = got[i]
        e = {"op": op, "i": i + 1, "text": [], "none": False}
        before = root.current_length
        try:
            if op == "value":
                v = f.value
                e["none"] = v is None
                e["text"] = [] if v is None else key(f, v)
            elif op == "display":
                e["text"] = codes(f.display)
            elif op == "str":
                e["text"] = codes(str(f))
            elif op == "raw":
                e["text"] = codes(f.raw_display)
            elif op == "desc":
                e["text"] = codes(f.description)
            elif op == "has":
                e["b"] = bool(f.hasValue())
            else:
                e["a"], e["w"] = f.absolute_address, f.size
        except Exception as err:
            e["op"] = exc_name(err)
        e["grew"] = root.current_length - before
        t["ev"].append(e)
    return t


def record_calls(seed):
    r = random.Random(seed)
    t = {"name": "calls-%s" % seed, "hdr": {"src": [], "en": "BE", "flds": []},
         "ev": []}
    for _ in range(12):
        s = text(r, r.randint(0, 12), 1 << 20)
        if r.random() < .2:
            s += r.choice(("\\x01", "\\", "\\x0", "\\x08", "\\x07" "7"))
        as_bytes = r.random() < .3
        data = bytes(ord(c) & 255 for c in s) if as_bytes else s
        e = {"op": "call", "fn": "makePrintable", "in": codes(data),
             "cs": r.choice(("ASCII", "latin-1", "UTF-8")),
             "q": r.choice((0, 34, 39)), "smart": r.random() < .7}
        try:
            e["text"] = codes(tools.makePrintable(
                data, e["cs"], quote=chr(e["q"]) if e["q"] else None,
                smart=e["smart"]))
        except Exception as err:
            e["fn"] = exc_name(err)
        if as_bytes and data:
            e["cs"] = "ASCII"
        t["ev"].append(e)
        for fn in ("makeUnicode", "normalizeNewline"):
            s2 = s
            if fn == "normalizeNewline":
                s2 = "".join(r.choice("a\r\n\r\nb") for _ in range(r.randint(0, 9)))
            e = {"op": "call", "fn": fn, "in": codes(s2)}
            try:
                e["text"] = codes(getattr(tools, fn)(s2))
            except Exception as err:
                e["fn"] = exc_name(err)
            t["ev"].append(e)
    return t


def classify(t, k):
    e = t["ev"][k]
    if e["op"] == "call":
        return "call:%s" % e["fn"]
    return "%s:%s" % (t["hdr"]["flds"][e["i"] - 1]["k"], e["op"])


def run(ctx):
    ctx.model_check("ShowMC", "ShowMC" + ctx.n("", "Big"), min_states=1000)
    traces = ctx.pmap(record, [job("%s-%d" % (ctx.seed, i))
                               for i in range(ctx.n(1200, 15000))])
    traces += ctx.pmap(record_calls, ["%s-%d" % (ctx.seed, i)
                                      for i in range(ctx.n(150, 3000))])
    ctx.validate("ShowTrace", traces, classify=classify)
