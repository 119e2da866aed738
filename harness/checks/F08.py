"""F08: string fields (spec/Strings.tla)."""
import random

from lib import exc_name
from hachoir.core.endian import BIG_ENDIAN, LITTLE_ENDIAN
from hachoir.field import (Parser, RawBytes, CString, UnixLine, String,
                           PascalString8, PascalString16, PascalString32)
from hachoir.field.string_field import GenericString
from hachoir.stream import StringInputStream

CLASSES = {"C": CString, "UnixLine": UnixLine, "fixed": String,
           "Pascal8": PascalString8, "Pascal16": PascalString16,
           "Pascal32": PascalString32}
PREFIX = {"Pascal8": 1, "Pascal16": 2, "Pascal32": 4}
EIGHT = ["ASCII", "ISO-8859-1", "ISO-8859-15", "MacRoman", "WINDOWS-1252",
         "CP037", "ISO-8859-7"]
UTF = ["UTF-8", "UTF-16-LE", "UTF-16-BE", "UTF-32LE", "UTF-32BE", "UTF-16", "UTF-32"]
CODEC = {"UTF-32LE": "utf-32-le", "UTF-32BE": "utf-32-be"}
CHARS = ("abc \t\n\0\0xyz\"'", "\u0100\u0061\u0001\u0a61\u0a00\u6100\u000a\u010a",
         "\xe9\xa0\u20ac\u3000\u2003\x85", "\U00010000\U0010ffff\ud7ff\ue000\ufeff")


def tables(names):
    res = {}
    for cs in names:
        if cs in ("", "ASCII", "ISO-8859-1") or cs in UTF:
            continue
        row = []
        for b in range(256):
            try:
                row.append(ord(bytes([b]).decode(cs)))
            except UnicodeDecodeError:
                row.append(-1)
        res[cs] = row
    return res


def rand_text(r):
    pool = "".join(r.sample(CHARS, r.randint(1, 4)))
    if r.random() < .3:
        pool += "abc "
    return "".join(r.choice(pool) for _ in range(r.randint(0, 8)))


def encode(r, text, cs):
    if cs in ("UTF-16", "UTF-32"):
        cs = r.choice({"UTF-16": ("UTF-16-LE", "UTF-16-BE"),
                       "UTF-32": ("UTF-32LE", "UTF-32BE")}[cs])
        text = "\ufeff" + text
        if r.random() < .05:
            text = text[1:]
    return text.encode(CODEC.get(cs, cs or "latin-1"), "replace"), cs


def rand_item(r, big):
    """(item, bytes)"""
    f = r.choice(list(CLASSES))
    cs = r.choice(["", r.choice(EIGHT), r.choice(UTF), r.choice(UTF), r.choice(UTF)])
    it = {"f": f, "cs": cs, "strip": 0, "sch": [], "trunc": [], "n": 0}
    if r.random() < .4:
        it["strip"] = r.choice((1, 2))
        if it["strip"] == 2:
            it["sch"] = [ord(c) for c in r.choice((" ", "\0", "a ", "ab\0", "\xe9"))]
    if r.random() < .3:
        it["trunc"] = [ord(c) for c in r.choice(("\0", "a", "ab", "\n", "\xe9"))]
    text = rand_text(r)
    if f in ("C", "UnixLine") and r.random() < .8:
        text = text.replace("\0" if f == "C" else "\n", "q")
    if cs == "" and r.random() < .5:
        data, real = encode(r, text, r.choice(("UTF-8", "ISO-8859-15", "UTF-16")))
    else:
        data, real = encode(r, text, cs)
    if r.random() < .1:
        data = bytes(r.choice((0, 1, 10, 0x61, 0xc3, 0xa9, 0xff, 0xfe, 0xed)) for _ in range(r.randint(0, 9)))
    if r.random() < .1 and data:
        data = data[:-1]
    u = 4 if "32" in real else 2 if "16" in real else 1
    if f == "fixed":
        data = data or b"a" * u
        it["n"] = len(data)
        if r.random() < .02:
            it["n"] = r.choice((0, 65536))
    elif f in PREFIX:
        n = len(data) + (r.choice((0, 0, 0, 0, 1, 300)) if r.random() < .1 else 0)
        if f == "Pascal8":
            n = min(n, 255)
        data = n.to_bytes(PREFIX[f], "big" if big else "little") + data
    else:
        end = "\0" if f == "C" else "\n"
        if r.random() < .95:
            data += end.encode(CODEC.get(real, real or "latin-1"))
    # half a character: see Decode
    return it, data


def job(seed):
    r = random.Random(seed)
    en = r.choice(("BE", "LE"))
    items = []
    src = bytes(r.randrange(3) for _ in range(r.randint(0, 3)))
    start = len(src)
    for _ in range(r.randint(1, 5)):
        it, data = rand_item(r, en == "BE")
        items.append(it)
        src += data
    src += b"\x07" * r.randint(0, 6)
    out = []

    class Strings(Parser):
        endian = BIG_ENDIAN if en == "BE" else LITTLE_ENDIAN
        autofix = False

        def createFields(self):
            if start:
                yield RawBytes(self, "head", start)
            for i, it in enumerate(items):
                kw = {"charset": it["cs"] or None}
                if it["strip"]:
                    kw["strip"] = True if it["strip"] == 1 else "".join(map(chr, it["sch"]))
                if it["trunc"]:
                    kw["truncate"] = "".join(map(chr, it["trunc"]))
                if it["f"] == "fixed":
                    yield String(self, "s%d" % i, it["n"], **kw)
                else:
                    yield CLASSES[it["f"]](self, "s%d" % i, **kw)
            if self.current_size < self.size:
                yield RawBytes(self, "tail", (self.size - self.current_size) // 8)

    root = Strings(StringInputStream(src or b"\0"))
    src = src or b"\0"
    ev = []
    seen = set()
    whole = True
    for i, it in enumerate(items):
        e = {"op": "str", "it": it}
        ev.append(e)
        try:
            f = root["s%d" % i]
            obs = {}
            order = [("v", lambda: [ord(c) for c in f.value]),
                     ("len", lambda: f.length), ("cs", lambda: f.charset),
                     ("a", lambda: f.absolute_address // 8),
                     ("z", lambda: f.size // 8),
                     ("off", lambda: f.content_offset),
                     ("clen", lambda: f.content_size),
                     ("d", lambda: f.display)]
            r.shuffle(order)
            for k, get in order:
                obs[k] = get()
            obs.pop("d")
            seen.add(obs["cs"])
            obs["t"] = "ok"
            e["res"] = obs
        except Exception as err:
            e["res"] = {"t": "err", "x": exc_name(err)}
            whole = False
            break
    if whole and "tail" in root:
        ev.append({"op": "end", "a": root["tail"].absolute_address // 8})
    return {"name": str(seed), "src": list(src), "start": start, "en": en,
            "maps": tables(seen) or {"none": []}, "ev": ev}


def classify(t, k):
    e = t["ev"][k]
    if e["op"] == "end":
        return "end"
    return "%s.%s" % (e["it"]["f"], e["it"]["cs"] or "unknown")


def run(ctx):
    ctx.model_check("StringsMC")
    traces = ctx.pmap(job, ["%s-%d" % (ctx.seed, i) for i in range(ctx.n(4000, 60000))])
    ctx.validate("StringsTrace", traces, classify=classify)
