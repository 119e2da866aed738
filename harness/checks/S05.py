"""S05: integers follow the declared byte order (Streams, BitsMC, BitsTrace)."""
import random
import streams_h as sh
from lib import exc_name
from hachoir.stream import StringInputStream, InputStreamError
from hachoir import field as hf
from hachoir.core import bits as hb

INTS = [("UInt8", 8), ("UInt16", 16), ("UInt24", 24), ("UInt32", 32),
        ("UInt64", 64), ("Int8", 8), ("Int16", 16), ("Int24", 24),
        ("Int32", 32), ("Int64", 64)]


def stream_job(seed):
    """readBits / readInteger on every kind of stream."""
    r = random.Random(seed)
    hdr, src = sh.rand_world(r, kinds=["string", "file", "pipe", "sized"],
                             maxn=24, unaligned=True)
    if r.random() < .3:
        src = bytes(r.choice((0, 1, 127, 128, 255)) for _ in src)
    hdr["W"] = 8 if sh.SCALABLE else sh.REAL_W
    ops = sh.rand_ops(r, hdr, len(src), r.randint(8, 30),
                      {"readBits": 9, "read": .5, "readBytes": .5})
    hdr["name"] = "stream-%s" % seed
    return {"hdr": hdr, "src": src, "ops": ops}


def sweep_job(i, src):
    """Every offset and width in every order on one source."""
    hdr = {"kind": ("string", "pipe")[i % 2], "B": 4 if sh.SCALABLE else sh.REAL_B,
           "W": 64 if sh.SCALABLE else sh.REAL_W, "st": [dict(sh.BASE)],
           "big": False, "real": False, "name": "sweep-%d" % i}
    ops = []
    n = 8 * len(src)
    for a in range(0, min(n, 20)):
        for w in range(1, n - a + 1):
            if w > 34 and w not in (40, 48, 56, 63, 64, 65, 71, 72, 80):
                continue
            for en in ("BE", "LE", "ME"):
                how = ("bits", "signed", "unsigned")[(a + w + i) % 3]
                ops.append({"op": "readBits", "h": 1, "a": a, "n": w,
                            "en": en, "how": how})
    return {"hdr": hdr, "src": src, "ops": ops}


def bits(v, n):
    return [v >> (n - 1 - i) & 1 for i in range(n)]


def leaf(r, end):
    """(class, args, width, how)"""
    c = r.random()
    if c < .2:
        return ("Bit", (), 1, "bool")
    if c < .45:
        w = r.choice((r.randint(1, 9), r.randint(1, 40)))
        return ("Bits", (w,), w, "int")
    if c < .55:
        w = r.randint(1, 20)
        return (r.choice(("RawBits", "PaddingBits", "NullBits")), (w,), w, "int")
    if c < .9:
        name, w = r.choice(INTS)
        return (name, (), w, "signed" if name[0] == "I" else "int")
    w = r.choice((8, 9, 16, 23, 40, 56, 72, 128))
    sg = r.random() < .5
    return ("GenericInteger", (sg, w), w, "signed" if sg else "int")


def fields_job(seed):
    r = random.Random(seed)
    root_en = r.choice(("BE", "LE", "LE", "ME"))

    def tree(depth, end):
        items = []
        for _ in range(r.randint(1, 6)):
            if depth < 3 and r.random() < .3:
                items.append((r.choice((None, end, "BE", "LE")),
                              tree(depth + 1, end)))
            else:
                items.append(leaf(r, end))
        return items
    return {"name": "fields-%s" % seed, "seed": str(seed), "en": root_en,
            "tree": tree(0, root_en), "extra": r.randint(0, 3),
            "src": None}


def make_sets(prog, endian):
    class Set(hf.FieldSet):
        def createFields(self):
            for it in prog:
                if len(it) == 2:
                    yield make_sets(it[1], it[0])(self, "set[]")
                else:
                    yield getattr(hf, it[0])(self, "f[]", *it[1])
    if endian:
        Set.endian = sh.EN[endian]
    return Set


def flat(prog, en):
    for it in prog:
        if len(it) == 2:
            yield from flat(it[1], it[0] or en)
        else:
            yield it, en


def leaves(fs):
    for f in fs:
        if f.is_field_set:
            yield from leaves(f)
        else:
            yield f


def record_fields(job):
    r = random.Random("x" + job["seed"])
    decl = list(flat(job["tree"], job["en"]))
    total = sum(d[0][2] for d in decl)
    nbytes = (total + 7) // 8 + job["extra"]
    src = (r.randbytes(nbytes) if r.random() < .6
           else bytes(r.choice((0, 128, 255, 1)) for _ in range(nbytes)))

    class Root(hf.Parser):
        endian = sh.EN[job["en"]]

        def createFields(self):
            for it in job["tree"]:
                if len(it) == 2:
                    yield make_sets(it[1], it[0])(self, "set[]")
                else:
                    yield getattr(hf, it[0])(self, "f[]", *it[1])
    t = {"name": job["name"], "src": list(src),
         "fields": [{"w": d[0][2], "en": d[1]} for d in decl], "ev": []}
    try:
        root = Root(StringInputStream(src))
        fl = list(leaves(root))[:len(decl)]
    except Exception as err:
        t["ev"].append({"op": "field", "k": 1, "res": exc_name(err)})
        return t
    order = list(range(len(decl)))
    r.shuffle(order)
    for k in order:
        (cls, args, w, how), en = decl[k]
        e = {"op": "field", "k": k + 1, "how": "bits", "v": [], "cls": cls}
        try:
            f = fl[k]
            e["a"] = f.absolute_address
            e["sz"] = f.size
            v = f.value
            e["res"] = "ok"
            if v is None:       # how a value which cannot be read shows
                e["res"] = "err"
                t["ev"].append(e)
                continue
            if how == "bool":
                if type(v) is not bool:
                    e["res"] = "type"
                v = int(v)
            lo, hi = ((-(1 << w - 1), 1 << w - 1) if how == "signed"
                      else (0, 1 << w))
            if not isinstance(v, int) or not lo <= v < hi:
                e["res"] = "range"
            else:
                e["v"] = bits(v % (1 << w), w)
        except Exception as err:
            e["res"] = exc_name(err)
        t["ev"].append(e)
    return t


def record_fn(seed):
    r = random.Random(seed)
    t = {"name": "functions-%s" % seed, "src": [], "fields": [], "ev": []}

    def call(fn, inp, en, n, f):
        e = {"op": "fn", "fn": fn, "in": inp, "en": en, "n": n}
        try:
            e["out"] = f()
            e["res"] = "ok"
        except Exception as err:
            e["out"] = []
            e["res"] = exc_name(err)
        t["ev"].append(e)
    for _ in range(20):
        d = bytes(r.choice((0, 255, r.randrange(256)))
                  for _ in range(r.randint(1, 12)))
        for en in ("BE", "LE"):
            call("str2long", list(d), en, 0, lambda: bits(
                hb.str2long(d, sh.EN[en]), 8 * len(d)))
        d2 = d + d[:len(d) % 2]
        call("str2long", list(d2), "ME", 0, lambda: bits(
            hb.str2long(d2, sh.EN["ME"]), 8 * len(d2)))
        call("midswap", list(d2), "ME", 0, lambda: list(hb.strswapmid(d2)))
        w = r.choice((1, 7, 8, 9, 16, 31, 32, 33, 64, 80, r.randint(1, 100)))
        v = r.choice((r.getrandbits(w), (1 << w) - 1, 1 << w - 1, 1, 0))
        call("countBits", bits(v, w), "BE", 0, lambda: [hb.countBits(v)])
        for en in ("BE", "LE"):
            size = r.choice((None, (w + 7) // 8, (w + 7) // 8 + 2))
            if size or v:
                call("long2raw", bits(v, w), en, size or 0, lambda: list(
                    hb.long2raw(v, sh.EN[en], size)))
            b = bits(v, w)
            txt = "".join(map(str, b))
            if r.random() < .3:
                txt = " ".join((txt[:3], txt[3:]))
            call("bin2long", b, en, 0, lambda: bits(
                hb.bin2long(txt, sh.EN[en]), w))
        x = r.getrandbits(16)
        call("swap", bits(x, 16), "BE", 0, lambda: bits(hb.swap16(x), 16))
        y = r.getrandbits(32)
        call("swap", bits(y, 32), "BE", 0, lambda: bits(hb.swap32(y), 32))
        z = r.getrandbits(8)
        call("byte2bin", bits(z, 8), "BE", 1, lambda: [
            int(c) for c in hb.byte2bin(z)])
        call("byte2bin", bits(z, 8), "BE", 0, lambda: [
            int(c) for c in hb.byte2bin(z, False)])
    return t


def run(ctx):
    ctx.model_check("BitsMC", min_states=1000)
    r = ctx.rng
    srcs = [bytes([0x12, 0x34, 0x56, 0x78, 0x9a, 0xbc]),
            bytes([0xff, 0, 0xff, 0, 0x80, 1]), r.randbytes(6)]
    srcs += [r.randbytes(r.choice((4, 6, 8, 10)))
             for _ in range(ctx.n(1, 20))]
    jobs = [sweep_job(i, s) for i, s in enumerate(srcs)]
    jobs += [stream_job("%s-%d" % (ctx.seed, i)) for i in range(ctx.n(600, 10000))]
    ctx.validate("StreamsTrace", ctx.pmap(sh.record, jobs))
    traces = ctx.pmap(record_fields, [
        fields_job("%s-%d" % (ctx.seed, i)) for i in range(ctx.n(1500, 15000))])
    traces += ctx.pmap(record_fn, ["%s-%d" % (ctx.seed, i)
                                   for i in range(ctx.n(40, 400))])
    ctx.validate("BitsTrace", traces)
