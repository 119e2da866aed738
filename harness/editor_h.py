"""Driver of the editor (hachoir.editor): documents made from items, edited
by scripts or at random; every answer is recorded."""
import hashlib
import os
import random
from datetime import datetime, timedelta
from lib import exc_name
from hachoir.core.endian import BIG_ENDIAN, LITTLE_ENDIAN
from hachoir.editor import createEditor
from hachoir.editor.fieldset import NewFieldSet
from hachoir.editor.typed_field import (
    EditableBits, EditableBytes, EditableString, EditableCharacter,
    EditableInteger, EditableTimestampMac32)
from hachoir.field import (
    Parser, FieldSet, Bit, Bits, RawBits, RawBytes, Bytes, PaddingBytes,
    PaddingBits, NullBytes, UInt8, UInt16, UInt24, UInt32, UInt64, Int8, Int16,
    Int32, Int64, CString, UnixLine, PascalString8, PascalString16,
    PascalString32, String, Character, TimestampMac32, Float32, Float64, Enum,
    MissingField)
from hachoir.field.seekable_field_set import SeekableFieldSet
from hachoir.parser import createParser
from hachoir.stream import StringInputStream, StringOutputStream

EN = {"BE": BIG_ENDIAN, "LE": LITTLE_ENDIAN}
MAC = datetime(1904, 1, 1)
UINT = {8: UInt8, 16: UInt16, 24: UInt24, 32: UInt32, 64: UInt64}
INT = {8: Int8, 16: Int16, 32: Int32, 64: Int64}
STR = {"C": CString, "UnixLine": UnixLine, "Pascal8": PascalString8,
       "Pascal16": PascalString16, "Pascal32": PascalString32}
PRE = {"Pascal8": 1, "Pascal16": 2, "Pascal32": 4}


def order(d, en):
    return d if en == "BE" else d[::-1]


# --- documents -----------------------------------------------------------
def make_set(cls, it, items, base):
    class Made(cls):
        endian = EN[it["en"]]

        def createFields(self):
            for x in items:
                yield make_field(self, x)
    Made.__name__ = base
    return Made


def make_field(fs, x):
    k, nm, w = x["k"], x["nm"], x["w"]
    c = x.get("cls", "")
    if nm.endswith("]"):
        nm = nm[:nm.index("[")] + "[]"
    if k == "set":
        return make_set(FieldSet, x, x["ch"], "Set")(fs, nm)
    if k == "int":
        return (INT if x["sgn"] else UINT)[w](fs, nm)
    if k == "bits":
        if c == "bit":
            return Bit(fs, nm)
        return {"raw": RawBits, "pad": PaddingBits}.get(c, Bits)(fs, nm, w)
    if k == "char":
        return Character(fs, nm)
    if k == "time":
        return TimestampMac32(fs, nm)
    if k == "bytes":
        return {"raw": RawBytes, "pad": PaddingBytes}.get(c, Bytes)(
            fs, nm, w // 8)
    if k == "float":
        return (Float32 if w == 32 else Float64)(fs, nm)
    if k == "other":
        return NullBytes(fs, nm, w // 8)
    cs = x["pcs"] or None
    if x["fmt"] == "fixed":
        return String(fs, nm, w // 8, charset=cs)
    return STR[x["fmt"]](fs, nm, charset=cs)


def make_doc(en, items, src):
    return make_set(Parser, {"en": en}, items, "Root")(
        StringInputStream(bytes(src)))


def pack(parts):
    """Bytes of a list of (bit list in stream order, byte order)."""
    out, cur, cen = bytearray(), [], "BE"
    for b, en in parts:
        for bit in b:
            cen = en if not cur else cen
            cur.append(bit)
            if len(cur) == 8:
                q = order(cur, cen)
                out.append(int("".join(map(str, q)), 2))
                cur = []
    assert not cur
    return bytes(out)


def byte_bits(d, en):
    return [b for x in d for b in order([x >> (7 - i) & 1 for i in range(8)], en)]


LEAF = {"sgn": False, "fmt": "", "cs": "", "bom": [], "cls": "", "pcs": "",
        "w": 0, "ch": [], "en": "BE"}
CHARSETS = ["", "ASCII", "ISO-8859-1", "UTF-8", "UTF-16-LE", "UTF-16-BE"]


def rand_text(r, cs, n=None):
    n = r.choice((0, 1, 1, 3, 5)) if n is None else n
    hi = {"ASCII": 126, "": 255, "ISO-8859-1": 255}.get(cs, 0x7ff)
    return [r.choice((r.randint(32, 126), r.randint(32, hi), 0x20ac
                      if hi > 255 else 65)) for _ in range(n)]


def encode(d, cs):
    return "".join(map(chr, d)).encode(cs or "ISO-8859-1")


def rand_leaf(r, nm, en):
    """(item, bits in stream order)"""
    x = dict(LEAF, nm=nm)
    k = r.choice(("int", "int", "int", "char", "time", "bytes", "bytes", "str",
                  "str", "str", "float", "other"))
    x["k"] = k
    if k == "int":
        x["sgn"] = r.random() < .4
        x["w"] = r.choice(list(INT if x["sgn"] else UINT))
    elif k == "char":
        x["w"] = 8
    elif k == "time":
        x["w"] = 32
    elif k == "float":
        x["w"] = r.choice((32, 64))
    elif k in ("bytes", "other"):
        x["w"] = 8 * r.choice((1, 2, 3, 5))
        x["cls"] = r.choice(("", "raw", "pad"))
    else:
        f = r.choice(("fixed", "C", "UnixLine", "Pascal8", "Pascal8",
                      "Pascal16", "Pascal32"))
        cs = r.choice(CHARSETS)
        pcs = cs
        bom = b""
        if cs.startswith("UTF-16") and f != "UnixLine" and r.random() < .4:
            pcs = "UTF-16"
            bom = b"\xff\xfe" if cs == "UTF-16-LE" else b"\xfe\xff"
        t = [c for c in rand_text(r, cs, r.randint(1, 4)) if c not in (0, 10)]
        t = t or [65]
        content = bom + encode(t, cs)
        suf = b""
        if f in ("C", "UnixLine"):
            suf = ("\0" if f == "C" else "\n").encode(
                cs if cs.startswith("UTF") else "ASCII")
        pre = len(content).to_bytes(PRE.get(f, 4), "big") if f in PRE else b""
        d = order(pre, en) + content + suf
        x.update(fmt=f, cs=cs, pcs=pcs, bom=list(bom), w=8 * len(d))
        return x, byte_bits(d, en)
    b = [r.getrandbits(1) for _ in range(x["w"])]
    if k == "other":
        b = [0] * x["w"]
    return x, b


def rand_bits(r, names, en):
    """Some bit fields filling whole bytes."""
    left = 8 * r.choice((1, 1, 2, 3))
    res = []
    while left:
        w = r.randint(1, min(left, 13))
        if len(res) > 3:
            w = left
        x = dict(LEAF, nm=next(names), k="bits", w=w,
                 cls="bit" if w == 1 and r.random() < .5
                 else r.choice(("", "", "raw", "pad")))
        res.append((x, [r.getrandbits(1) for _ in range(w)]))
        left -= w
    return res


def rand_items(r, en, depth, lo=1):
    names = iter(["a", "b", "c", "x[0]", "x[1]", "d", "e", "f", "g", "h",
                  "y[0]", "y[1]", "y[2]"] + ["n%d" % i for i in range(30)])
    items, parts = [], []
    for _ in range(r.randint(lo, 5)):
        c = r.random()
        if c < .25 and depth:
            e2 = en if r.random() < .7 else ("LE" if en == "BE" else "BE")
            ch, p = rand_items(r, e2, depth - 1)
            items.append(dict(LEAF, nm=next(names), k="set", en=e2, ch=ch))
            parts += p
        elif c < .5:
            for x, b in rand_bits(r, names, en):
                items.append(x)
                parts.append((b, en))
        else:
            x, b = rand_leaf(r, next(names), en)
            items.append(x)
            parts.append((b, en))
    return items, parts


# --- values --------------------------------------------------------------
def mag(n):
    return [int(c) for c in bin(abs(n))[2:]] if n else []


def norm(v, kind):
    """A Python value as the specification writes it."""
    if kind in ("int", "bits"):
        if isinstance(v, int):
            return {"t": "int", "neg": v < 0, "m": mag(v)}
    elif kind == "time":
        d = v - MAC
        n = d.days * 86400 + d.seconds
        if not d.microseconds:
            return {"t": "time", "neg": n < 0, "m": mag(n)}
    elif kind == "char":
        if isinstance(v, str) and len(v) == 1:
            return {"t": "char", "c": ord(v)}
    elif kind == "bytes" and isinstance(v, bytes):
        return {"t": "bytes", "d": list(v)}
    elif kind == "str":
        if isinstance(v, bytes):
            return {"t": "bytes", "d": list(v)}
        if isinstance(v, str):
            return {"t": "text", "d": [ord(c) for c in v]}
    elif kind == "float" and isinstance(v, float):
        import math
        m, x = math.frexp(abs(v))
        if v and not math.isinf(v) and v == v:
            bits = mag(int(m * (1 << 53)))[1:]
            while bits and not bits[-1]:
                bits.pop()
            return {"t": "float", "neg": v < 0, "m": bits, "x": x - 1}
    elif kind in ("other", "set", "tree"):
        return {"t": "unread"}
    return {"t": "odd:" + repr(v)[:40]}


def denorm(v):
    t = v["t"]
    if t in ("int", "time"):
        n = int("0" + "".join(map(str, v["m"])), 2)
        n = -n if v["neg"] else n
        return n if t == "int" else MAC + timedelta(seconds=n)
    if t == "char":
        return chr(v["c"])
    if t == "bytes":
        return bytes(v["d"])
    if t == "text":
        return "".join(map(chr, v["d"]))
    if t == "float":
        n = int("1" + "".join(map(str, v["m"])), 2)
        f = n * 2.0 ** (v["x"] - len(v["m"]))
        return -f if v["neg"] else f
    return {"int": "5", "none": None, "list": [3]}.get(v["how"])


def rand_value(r, k, w, sgn, cs):
    if r.random() < .07:
        k2 = r.choice(("int", "time", "char", "bytes", "bad"))
        if not {k, k2} <= {"int", "bits"} and k != "float" \
                and (k, k2) not in (("str", "bytes"), ("str", "char")):
            k = k2
    if k == "bad":
        return {"t": "bad", "how": "list"}
    if k in ("int", "bits"):
        hi = (1 << w - 1) - 1 if sgn else (1 << w) - 1
        lo = -(1 << w - 1) if sgn else 0
        n = r.choice((lo, hi, lo - 1, hi + 1, 0, 1, -1,
                      r.randint(lo, hi), r.randint(lo, hi), r.randint(lo, hi)))
        return {"t": "int", "neg": n < 0, "m": mag(n)}
    if k == "time":
        n = r.choice((0, -1, (1 << 32) - 1, 1 << 32, r.getrandbits(32),
                      r.getrandbits(32), r.getrandbits(31)))
        return {"t": "time", "neg": n < 0, "m": mag(n)}
    if k == "char":
        return {"t": "char", "c": r.choice((0, 65, 255, 256, 0x20ac,
                                            r.randint(0, 255)))}
    if k == "bytes":
        return {"t": "bytes", "d": list(r.randbytes(r.choice((0, 1, 2, 4, 9))))}
    if k == "str":
        if r.random() < .35:
            return {"t": "bytes", "d": list(r.randbytes(r.choice((0, 1, 2, 6))))}
        n = r.choice((255, 256, 257, 128)) if r.random() < .04 else None
        # a charset which is not told is guessed: only ASCII is sure
        c2 = (cs if r.random() < .9 else "UTF-8") if cs else "ASCII"
        return {"t": "text", "d": rand_text(r, c2, n)}
    if k == "float":
        m = [r.getrandbits(1) for _ in range(r.randint(0, 22))] + [1]
        return {"t": "float", "neg": r.random() < .5, "m": m,
                "x": r.choice((0, 1, -3, 20, -100, 127, 128, 200))}
    return {"t": "bad", "how": r.choice(("int", "none", "list"))}


# --- edits ---------------------------------------------------------------
def new_field(parent, n):
    k, v = n["k"], n.get("v")
    nm = n["nm"] + ("[]" if n["ix"] else "")
    if k == "set":
        s = NewFieldSet(parent, nm)
        s.insert(*[new_field(s, c) for c in n["ch"]])
        return s
    v = denorm(v)
    if k == "int":
        return EditableInteger(parent, nm, n["sgn"], n["w"], v)
    if k == "bits":
        return EditableBits(parent, nm, n["w"], v)
    if k == "char":
        return EditableCharacter(parent, nm, v)
    if k == "time":
        return EditableTimestampMac32(parent, nm, v)
    if k == "bytes":
        return EditableBytes(parent, nm, v)
    return EditableString(parent, nm, n["fmt"], v, charset=n["cs"] or None)


def at(ed, p):
    return ed["/".join(p)] if p else ed


def rand_new(r, depth=1, names=None):
    n = {"nm": r.choice(names or ["x", "y", "a", "n", "q", "k1", "k2", "k3"]
                        + ["z%d" % r.randint(0, 99)] * 6),
         "ix": r.random() < .2, "k": "set", "ch": [], "w": 0, "sgn": False,
         "fmt": "", "cs": "", "v": {"t": "none"}}
    if depth and r.random() < .15:
        n["ch"] = [rand_new(r, 0) for _ in range(r.randint(0, 3))]
        seen = set()
        n["ch"] = [c for c in n["ch"]
                   if not (c["nm"] in seen or seen.add(c["nm"]))]
        for c in n["ch"]:
            c["ix"] = False
        return n
    k = r.choice(("int", "bits", "bits", "char", "time", "bytes", "str", "str"))
    n["k"] = k
    if k == "int":
        n.update(sgn=r.random() < .5, w=r.choice((8, 16, 24, 32, 64, 48)))
    elif k == "bits":
        n["w"] = r.choice((1, 3, 5, 8, 8, 11, 16))
    elif k in ("char", "time"):
        n["w"] = 8 if k == "char" else 32
    elif k == "str":
        n["fmt"] = r.choice(("fixed", "C", "UnixLine", "Pascal8", "Pascal16",
                             "Pascal32"))
        n["cs"] = r.choice(("", "ASCII", "ISO-8859-1", "UTF-8", "UTF-16-LE"))
    for _ in range(9):
        n["v"] = rand_value(r, k, n["w"], n["sgn"], n["cs"])
        if n["v"]["t"] != "bad":
            break
    if n["v"]["t"] == "bad":
        return rand_new(r, depth, names)
    if k in ("int", "bits") and n["v"]["t"] != "int":
        n["v"] = {"t": "int", "neg": False, "m": []}   # asserted by the class
    if k == "time" and n["v"]["t"] != "time":
        n["v"] = {"t": "time", "neg": False, "m": [1]}
    return n


def kind_of(items, ed_kinds, p):
    return ed_kinds.get(tuple(p))


class Driver:
    def __init__(self, job, doc=None):
        self.job = job
        self.doc = doc or make_doc(job["en"], job["items"], job["src"])
        self.ed = createEditor(self.doc)
        self.r = random.Random("ed%s" % job["name"])
        # what the fields are (only to choose requests and read values)
        self.meta = {}
        self.note((), job["items"])
        self.ev = []

    def note(self, p, items):
        for x in items:
            q = p + (x["nm"],)
            self.meta[q] = x
            if x["k"] == "set":
                self.note(q, x["ch"])

    def sets(self):
        return [()] + [p for p, x in self.meta.items() if x["k"] == "set"]

    def do(self, e):
        ed, op = self.ed, e["op"]
        p = e.get("p", [])
        for k in range(len(p)):
            if self.meta.get(tuple(p[:k + 1]), {}).get("k") in ("float", "tree") \
                    and (op in ("list", "ins") or k + 1 < len(p)):
                return e     # the parts of a float
        try:
            e["res"] = "ok"
            if op == "set":
                at(ed, p).value = denorm(e["v"])
            elif op == "del":
                if len(p) % 2 and len(p) > 1:
                    del at(ed, p[:-1])[p[-1]]
                else:
                    del ed["/".join(p)]
            elif op == "ins":
                e["got"] = []
                s = at(ed, p)
                new = [new_field(s, n) for n in e["ns"]]
                if e["where"] == "end":
                    s.insert(*new)
                elif e["where"] == "before":
                    s.insertBefore(e["anchor"], *new)
                else:
                    s.insertAfter(e["anchor"], *new)
                e["got"] = [f.name for f in new]
                for n, f in zip(e["ns"], new):
                    self.note(tuple(p), [dict(n, nm=f.name)])
            elif op == "list":
                s = at(ed, p)
                e["f"] = []
                e["f"] = [{"nm": f.name, "sz": f.size, "a": f.address}
                          for f in s]
                e["n"] = len(s)
            elif op == "has":
                e["in"] = "/".join(p) in ed
            elif op == "get":
                f = at(ed, p)
                e.update(nm=f.name, sz=f.size, a=f.address,
                         set=bool(f.is_field_set), v={"t": "unread"})
                m = self.meta.get(tuple(p), {"k": "set"})
                if m["k"] not in ("set", "other", "tree") \
                        and (m["k"] != "str" or f.is_altered) \
                        and (m["k"] != "float" or f.is_altered):
                    e["v"] = norm(f.value, m["k"])
            elif op == "size":
                e["n"], e["alt"] = ed.size, ed.is_altered
            elif op == "reset":
                ed.reset()
            elif op == "write":
                e["d"] = []
                out = StringOutputStream()
                ed.writeInto(out)
                while out._bit_pos if hasattr(out, "_bit_pos") else False:
                    out.writeBit(False, EN[self.job["en"]])
                e["d"] = list(out._output.getvalue())
        except MissingField:
            e["res"] = "exc:MissingField"
        except Exception as err:
            e["res"] = exc_name(err)
        for k, dflt in (("f", []), ("n", -1), ("d", []), ("got", [])):
            e.setdefault(k, dflt)
        self.ev.append(e)
        return e

    def reread(self, d):
        """Parse what was written with the original parser."""
        vs = []
        e = {"op": "reread", "p": [], "res": "ok", "vs": vs}
        try:
            doc = make_doc(self.job["en"], self.job["items"], d)

            def walk(fs, p):
                for f in fs:
                    q = p + (f.name,)
                    m = self.meta[q]
                    if m["k"] == "set":
                        walk(f, q)
                        continue
                    v = {"t": "unread"}
                    if m["k"] not in ("other", "float", "str"):
                        v = norm(f.value, m["k"])
                    elif m["k"] == "str" and self.textual.get(q):
                        v = norm(f.value, "str")
                    elif m["k"] == "float" and q in self.floats:
                        v = norm(f.value, "float")
                    vs.append({"sz": f.size, "v": v})
            walk(doc, ())
        except Exception as err:
            e["res"] = exc_name(err)
        self.ev.append(e)

    def trace(self):
        return {"name": self.job["name"], "items": self.job["items"],
                "src": list(self.job["src"]), "en": self.job["en"],
                "ev": self.ev}

    def path(self, sets=False):
        r = self.r
        if r.random() < .08:
            return [r.choice(["a", "zz", "x[0]", "s", "k1"])
                    for _ in range(r.choice((1, 1, 2)))]
        ps = self.sets() if sets else list(self.meta)
        return list(r.choice(ps))

    def choose(self):
        r = self.r
        c = r.random()
        if c < .24:
            p = self.path()
            m = self.meta.get(tuple(p), {"k": "other", "w": 8})
            return {"op": "set", "p": p, "v": rand_value(
                r, m["k"] if m["k"] != "set" else "bad", m["w"],
                m.get("sgn"), m.get("cs", ""))}
        if c < .38:
            return {"op": "del", "p": self.path()}
        if c < .6:
            p = self.path(sets=True)
            q = [x[-1] for x in self.meta if list(x[:-1]) == p] or ["zz"]
            names = None
            if r.random() < .2:
                names = [n.replace("[0]", "") for n in q]
            ns = [rand_new(r, names=names)
                  for _ in range(r.choice((1, 1, 2, 3)))]
            return {"op": "ins", "p": p, "where":
                    r.choice(("before", "after", "after", "end")),
                    "anchor": r.choice(q) if r.random() < .95 else "zz",
                    "ns": ns}
        if c < .7:
            return {"op": "list", "p": self.path(sets=True)}
        if c < .78:
            return {"op": "has", "p": self.path()}
        if c < .9:
            return {"op": "get", "p": self.path()}
        if c < .94:
            return {"op": "size"}
        if c < .96:
            return {"op": "reset"}
        return {"op": "write"}

    def end(self):
        for p in self.sets():
            self.do({"op": "list", "p": list(p)})
        for p in list(self.meta):
            if len(self.ev) < 90:
                self.do({"op": "get", "p": list(p)})
        self.do({"op": "size"})
        return self.do({"op": "write"})


def record(job):
    d = Driver(job)
    if job.get("first"):
        for op in job["first"]:
            d.do({"op": op, "p": []})
    if "ops" in job:
        for e in job["ops"]:
            d.do(dict(e))
    else:
        for _ in range(job["count"]):
            e = d.do(d.choose())
            if e["op"] == "ins" and "res" in e:
                d.do({"op": "list", "p": e["p"]})
    d.end()
    return d.trace()


def record_values(job):
    """Only values are edited: what is written is read again."""
    d = Driver(job)
    r = d.r
    d.textual, d.floats = {}, set()
    for _ in range(job["count"]):
        p, m = r.choice(list(d.meta.items()))
        if m["k"] == "set":
            continue
        v = rand_value(r, m["k"], m["w"], m["sgn"], m["cs"])
        if m["k"] == "str":
            if v["t"] != "text" or m["fmt"] == "fixed" \
                    or set(v["d"]) & {0, 10} or not v["d"]:
                continue
        e = d.do({"op": "set", "p": list(p), "v": v})
        if e["res"] == "ok":
            d.textual[p] = True
            if m["k"] == "float":
                d.floats.add(p)
            if m["k"] == "bytes":     # of another length, it ends elsewhere
                d.meta[p] = m
    sizes = {p: at(d.ed, p).size for p, m in d.meta.items() if m["k"] == "bytes"}

    def resize(items, p):
        return [dict(x, w=sizes.get(p + (x["nm"],), x["w"]),
                     ch=resize(x["ch"], p + (x["nm"],))) for x in items]
    e = d.do({"op": "write"})
    old = d.job
    d.job = dict(old, items=resize(old["items"], ()))
    d.reread(e["d"])
    d.job = old
    return d.trace()


def rand_job(seed, **kw):
    r = random.Random("edj%s" % seed)
    en = r.choice(("BE", "LE"))
    items, parts = rand_items(r, en, 2, lo=2)
    return dict({"name": str(seed), "en": en, "items": items,
                 "src": list(pack(parts)), "count": r.randint(4, 22)}, **kw)


# --- the shipped parsers -------------------------------------------------
def describe(fs, left, depth=0):
    """Items of a parsed set (what can not be described is one opaque leaf);
    left: [fields still allowed]"""
    items = []
    for f in fs:
        left[0] -= 1
        if left[0] < 0:
            return None
        x = dict(LEAF, nm=f.name, k="other", w=f.size)
        if f.is_field_set:
            x["k"] = "tree"
            ch = None
            if depth < 5 and not isinstance(f, SeekableFieldSet) \
                    and f.endian in (BIG_ENDIAN, LITTLE_ENDIAN) \
                    and len(f) and f.__class__ not in (Float32, Float64):
                ch = describe(f, left, depth + 1)
            if ch is not None:
                x.update(k="set", ch=ch, w=0,
                         en="BE" if f.endian == BIG_ENDIAN else "LE")
        items.append(x)
    return items


def record_file(job):
    """Remove, insert and write fields of a sample file."""
    doc = createParser(job["file"])
    if doc is None:
        return None
    if isinstance(doc, SeekableFieldSet) \
            or doc.endian not in (BIG_ENDIAN, LITTLE_ENDIAN):
        return None
    items = describe(doc, [250])
    if not items:
        return None
    with open(job["file"], "rb") as f:
        src = f.read()[:(doc.size + 7) // 8]
    if doc.size % 8:
        return None
    j = {"name": job["name"], "items": items, "src": list(src),
         "en": "BE" if doc.endian == BIG_ENDIAN else "LE"}
    d = Driver(j, doc)
    r = d.r
    if r.random() < .5:
        d.do({"op": "write"})
    for _ in range(job["count"]):
        c = r.random()
        if c < .5:
            d.do({"op": "del", "p": d.path()})
        elif c < .8:
            e = d.choose()
            while e["op"] != "ins":
                e = d.choose()
            d.do(e)
        else:
            d.do({"op": "get", "p": d.path()})
    d.do({"op": "list", "p": []})
    d.do({"op": "size"})
    d.do({"op": "write"})
    return d.trace()


def copy_file(path):
    """A sample file written without edit: digests of what is written, and
    of the bytes covered by the tree."""
    e = {"op": "copy", "p": [], "res": "ok", "old": "", "new": ""}
    try:
        doc = createParser(path)
        if doc is None:
            return None
        size = doc.size
        with open(path, "rb") as f:
            data = f.read(size // 8)
        e["old"] = hashlib.sha256(data).hexdigest()
        out = StringOutputStream()
        ed = createEditor(doc)
        if size % 2:
            list(ed)
        ed.writeInto(out)
        e["new"] = hashlib.sha256(
            out._output.getvalue()[:size // 8]).hexdigest()
    except Exception as err:
        e["res"] = exc_name(err)
    return {"name": os.path.basename(path), "items": [], "src": [],
            "en": "BE", "ev": [e]}
