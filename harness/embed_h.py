"""Documents with embedded data (spec/Embed.tla), built with the real field
classes or for the real parsers, and the recorder of what their streams give
(spec/EmbedTrace.tla)."""
import bz2
import gzip
import random
import struct
import weakref
import zlib

from lib import exc_name, REPO
from hachoir.core.endian import BIG_ENDIAN
from hachoir.field import (Parser, FieldSet, Bytes, RawBytes, UInt8, SubFile,
                           CompressedField, Link, Fragment, CustomFragment,
                           FragmentGroup)
from hachoir.parser.archive.bzip2_parser import Bunzip2, Bzip2Parser
from hachoir.parser.archive.gzip_parser import GzipParser
from hachoir.parser.common.deflate import Deflate
from hachoir.parser.file_system.fat import FAT12, FAT16, FAT32
from hachoir.stream import StringInputStream
from hachoir.stream.input import FileFromInputStream

ITEM = {"k": "win", "nm": "", "a": 0, "z": 0, "da": 0, "dz": 0, "fst": 0,
        "nxt": 0, "codec": "", "plain": [], "kids": [], "late": 0}


def ditem(**kw):
    d = dict(ITEM)
    d.update(kw)
    return d


class Rep:
    """Toy decompressor: byte b gives b % 4 copies of b.  policy "all": gives
    everything it can, "some": no more than asked."""

    def __init__(self, policy):
        self.policy = policy
        self.rest = b""

    def __call__(self, stream):
        return self.run

    def run(self, size, data=b""):
        out = self.rest + b"".join(bytes([b]) * (b % 4) for b in data)
        if self.policy == "all":
            self.rest = b""
            return out
        self.rest = out[size:]
        return out[:size]


def compress(field, how):
    if how in ("all", "some"):
        CompressedField(field, lambda stream: Rep(how)(stream))
    elif how == "zlib":
        Deflate(field, False)
    elif how == "raw":
        Deflate(field, True)
    elif how == "bz2":
        CompressedField(field, Bunzip2)
    return field


def pack(how, data):
    if how == "zlib":
        return zlib.compress(data)
    if how == "raw":
        c = zlib.compressobj(wbits=-15)
        return c.compress(data) + c.flush()
    return bz2.compress(data)


class PathLink(Link):
    def __init__(self, parent, name, target):
        Link.__init__(self, parent, name)
        self.target = target

    def createDisplay(self):
        return self.target


class Inner(FieldSet):
    def createFields(self):
        yield RawBytes(self, "in", self.size // 8)


class Piece(Fragment):
    def __init__(self, parent, doc, i):
        it = doc[i - 1]
        Fragment.__init__(self, parent, it["nm"], None, size=8 * it["z"])
        self.doc, self.it, self.i = doc, it, i
        if it["how"] == "plain":
            self._getData = lambda: self
        elif it["how"] == "part":
            self._getData = lambda: self["data"]
        if it["late"] == 0:
            self.join()
        if it["comp"]:
            compress(self, it["comp"])

    def join(self):
        it = self.it
        first = None if it["fst"] == self.i else self.parent[self.doc[it["fst"] - 1]["nm"]]
        if not it["nxt"]:
            self.setLinks(first)
        elif it["eager"]:
            self.setLinks(first, self.parent[self.doc[it["nxt"] - 1]["nm"]])
        else:
            self.setLinks(first, lambda: self.parent[self.doc[it["nxt"] - 1]["nm"]])

    def createFields(self):
        n = 0
        for nm, z in self.it["parts"]:
            if n == self.it["late"] and n:
                self.join()
            yield Bytes(self, nm, z)
            n += 1


class DefaultPiece(Piece):
    createFields = Fragment.createFields


def build(doc):
    class Doc(Parser):
        endian = BIG_ENDIAN

        def createFields(self):
            groups = {}
            for i, it in enumerate(doc, 1):
                k = it["k"]
                if k == "frag":
                    cls = DefaultPiece if it["how"] == "self" else Piece
                    yield cls(self, doc, i)
                elif k == "cf":
                    g = groups.get(it["fst"])
                    f = CustomFragment(self, it["nm"], 8 * it["z"], None, None, g)
                    groups[it["fst"]] = f.group
                    yield f
                elif k == "link":
                    yield PathLink(self, it["nm"], it["target"])
                elif it["how"] == "sub":
                    yield compress(SubFile(self, it["nm"], it["z"], filename="x.bin"),
                                   it["comp"])
                elif it["how"] == "set":
                    yield Inner(self, it["nm"], size=8 * it["z"])
                else:
                    yield compress(RawBytes(self, it["nm"], it["z"]), it["comp"])
    return Doc


def rand_doc(r):
    """A random document: (src, items)."""
    src = bytearray()
    doc = []
    n = r.randint(1, 7)
    fst = []                # firsts of chains
    groups = []
    for i in range(1, n + 1):
        k = r.choice(("win", "win", "frag", "frag", "cf", "link"))
        it = ditem(k=k, nm="i%d" % i, a=len(src), how="", comp="")
        if k == "win":
            it["how"] = r.choice(("sub", "raw", "set"))
            data = bytes(r.randrange(256) for _ in range(r.randint(1, 12)))
            if it["how"] != "set" and r.random() < .5:
                it["comp"] = r.choice(("all", "some", "zlib", "raw", "bz2"))
                if it["comp"] in ("all", "some"):
                    if r.random() < .2:
                        data = bytes(r.randrange(256) for _ in range(r.randint(500, 1600)))
                    it["codec"] = "rep"
                else:
                    plain = bytes(r.randrange(256) for _ in range(
                        r.choice((0, 1, 10, 1500, 3000)))) * r.choice((1, 1, 2))
                    if r.random() < .2:
                        plain = b"abc" * 2000
                    it["codec"] = "given"
                    it["plain"] = list(plain)
                    data = pack(it["comp"], plain)
        elif k == "frag":
            it["how"] = r.choice(("self", "plain", "part"))
            it["fst"] = i if not fst or r.random() < .4 else r.choice(fst)
            if it["fst"] == i:
                fst.append(i)
                if r.random() < .3:
                    it["comp"] = r.choice(("all", "some"))
                    it["codec"] = "rep"
            parts = [("data", r.randint(1, 9))]
            if it["how"] != "self":
                for j in range(r.randint(0, 2)):
                    parts.append(("p%d" % j, r.randint(1, 3)))
                r.shuffle(parts)
                it["late"] = r.randint(0, len(parts) - 1)
            it["parts"] = parts
            it["kids"] = [p[0] for p in parts]
            data = bytes(r.randrange(256) for _ in range(sum(p[1] for p in parts)))
            it["da"], it["dz"] = it["a"], len(data)
            if it["how"] == "part":
                j = it["kids"].index("data")
                it["da"] += sum(p[1] for p in parts[:j])
                it["dz"] = parts[j][1]
            it["eager"] = False
        elif k == "cf":
            it["fst"] = i if not groups or r.random() < .4 else r.choice(groups)
            if it["fst"] == i:
                groups.append(i)
            data = bytes(r.randrange(256) for _ in range(r.randint(1, 9)))
        else:
            data = b""
        it["z"] = len(data)
        src += data
        doc.append(it)
    # chains: the fragments of each, in any order after the first
    for f in fst:
        rest = [i for i, it in enumerate(doc, 1) if it["k"] == "frag" and it["fst"] == f and i != f]
        r.shuffle(rest)
        prev = f
        for i in rest:
            if r.random() < .1:
                break
            doc[prev - 1]["nxt"] = i
            # the field itself rather than a function, when it exists already
            doc[prev - 1]["eager"] = i < prev and r.random() < .5
            prev = i
    for it in doc:
        if it["k"] == "link":
            t = r.randint(0, n + 1)
            if 1 <= t <= n and doc[t - 1]["k"] != "link":
                it["nxt"] = t
                it["target"] = r.choice(("/i%d", "i%d")) % t
            else:
                it["target"] = r.choice(("/nothing", "i99"))
    return bytes(src), doc


def fat_image(r):
    """A FAT image with files scattered over its clusters."""
    version = r.choice((12, 16, 32))
    spc = r.choice((1, 2))                  # sectors per cluster
    ss = 512
    nclus = r.randint(6, 20)
    cs = ss * spc
    maxroot = 0 if version == 32 else r.choice((16, 32, 64))
    boot = bytearray(512)
    boot[0:3] = b"\xeb\x3c\x90"
    boot[3:11] = b"MSDOS5.0"
    struct.pack_into("<HBHBHHBHHHII", boot, 11, ss, spc, 1, 1, maxroot,
                     nclus * spc, 0xf8, 1, 1, 1, 0, 0)
    inf = (0,)
    if version == 32:
        struct.pack_into("<H", boot, 22, 0)
        struct.pack_into("<I", boot, 36, 1)
        inf = r.choice(((0, 0), (1, 2), (2, 1), (0, 1)))
        struct.pack_into("<HH", boot, 48, *inf)
        struct.pack_into("<H", boot, 14, 1 + max(inf))
        boot[66] = 0x29
        boot[71:82] = b"NO NAME    "
        boot[82:90] = b"FAT32   "
    else:
        boot[38] = 0x29
        boot[43:54] = b"NO NAME    "
        boot[54:62] = b"FAT%-5u" % version
    boot[510:512] = b"\x55\xaa"
    free = list(range(2, nclus + 2))
    if r.random() < .6:
        r.shuffle(free)
    fat = [0] * nclus
    eoc = {12: 0xfff, 16: 0xffff, 32: 0xfffffff}[version]
    files = []
    root = bytearray(maxroot * 32 or cs)
    rootclus = 0
    if version == 32:
        rootclus = r.choice((2, free[0]))
        free.remove(rootclus)
        fat[rootclus - 2] = eoc
        struct.pack_into("<I", boot, 44, rootclus)
    for j in range(r.randint(1, 4)):
        k = r.randint(1, 4)
        if len(free) < k:
            break
        cl, free = free[:k], free[k:]
        for x, y in zip(cl, cl[1:]):
            fat[x - 2] = y
        fat[cl[-1] - 2] = eoc
        size = (k - 1) * cs + r.choice((1, cs, r.randint(1, cs)))
        struct.pack_into("<8s3sB", root, 32 * j, b"FILE%d   " % j, b"BIN", 0x20)
        struct.pack_into("<HI", root, 32 * j + 26, cl[0], size)
        files.append((cl[0], size))
    entries = [eoc - 7, eoc] + fat
    table = bytearray(ss)
    if version == 12:
        for i, v in enumerate(entries):
            o = i * 3 // 2
            if i % 2:
                table[o] |= (v & 0xf) << 4
                table[o + 1] = v >> 4
            else:
                table[o] = v & 0xff
                table[o + 1] |= v >> 8
    else:
        for i, v in enumerate(entries):
            struct.pack_into("<H" if version == 16 else "<I", table, version // 8 * i, v)
    clusters = [bytes([r.randrange(256) for _ in range(8)]) * (cs // 8)
                for _ in range(nclus)]
    src = bytes(boot) + bytes(512 * max(inf)) + bytes(table)
    if rootclus:
        clusters[rootclus - 2] = bytes(root)
    else:
        src += bytes(root)
    a0 = len(src)
    src += b"".join(clusters)
    doc = [ditem(k="file", nm="FILE%d" % j, nxt=c, z=size, da=a0, dz=cs)
           for j, (c, size) in enumerate(files)]
    return {12: FAT12, 16: FAT16, 32: FAT32}[version], src, fat, doc


def ogg_file(r):
    """Pages of up to three multiplexed logical streams."""
    serials = list(range(1, r.randint(2, 4)))
    todo = {s: r.randint(1, 4) for s in serials}
    src = bytearray()
    doc = []
    firsts = {}
    while todo:
        s = r.choice(list(todo))
        todo[s] -= 1
        last = not todo[s]
        if last:
            del todo[s]
        sizes = [r.randint(0, 40) for _ in range(r.randint(0 if s in firsts else 1, 3))]
        if sizes and not sum(sizes):
            sizes[0] = 1
        body = bytes(r.randrange(256) for _ in range(sum(sizes)))
        flags = (0 if s in firsts else 2) | (4 if last else 0)
        head = struct.pack("<4sBBQIIIB", b"OggS", 0, flags, 0, s, len(doc), 0, len(sizes)) + bytes(sizes)
        a = len(src) + len(head)
        src += head + body
        firsts.setdefault(s, 1)
        doc.append(ditem(k="ogg", nm="page[%d]" % len(doc), a=a, z=len(body),
                         da=a, dz=len(body), fst=s, nxt=0 if last else 1))
    return bytes(src), doc


def png_file(r):
    plain = bytes(r.randrange(256) for _ in range(r.choice((5, 700, 3000))))
    z = zlib.compress(plain)
    cuts = sorted(r.randint(1, len(z) - 1) for _ in range(r.randint(0, 5)))
    cuts = [0] + sorted(set(cuts)) + [len(z)]
    src = bytearray(b"\x89PNG\r\n\x1a\n")

    def chunk(tag, data):
        a = len(src) + 8
        src.extend(struct.pack(">I4s", len(data), tag) + data
                   + struct.pack(">I", zlib.crc32(tag + data)))
        return a
    chunk(b"IHDR", struct.pack(">IIBBBBB", 10, 10, 8, 0, 0, 0, 0))
    doc = []
    n = len(cuts) - 1
    for i, (x, y) in enumerate(zip(cuts, cuts[1:])):
        a = chunk(b"IDAT", z[x:y])
        doc.append(ditem(k="frag", nm="data[%d]/compressed_data" % i, a=a, z=y - x, da=a,
                         dz=y - x, fst=1, nxt=i + 2 if i + 1 < n else 0,
                         codec="" if i else "given", plain=[] if i else list(plain),
                         kids=["data"]))
    chunk(b"IEND", b"")
    return bytes(src), doc


class Recorder:
    def __init__(self, r, root, doc, find, src, fat=(), name=""):
        self.r, self.root, self.doc, self.find = r, root, doc, find
        self.h = []             # [strong reference or None, weakref]
        self.ev = []
        clean = [{k: it[k] for k in ITEM} for it in doc]
        self.t = {"name": name, "src": list(src), "fat": list(fat),
                  "doc": clean, "ev": self.ev}

    def emit(self, e, func):
        try:
            res = func()
            res["t"] = "ok"
        except Exception as err:
            res = {"t": "err", "x": exc_name(err)}
        e["res"] = res
        e["cnt"] = min(len(self.doc), self.root.current_length)
        self.ev.append(e)
        return res["t"] == "ok"

    def open(self, i):
        keep = []

        def run():
            s = self.find(i).getSubIStream()
            was = 0
            for j, (strong, weak) in enumerate(self.h, 1):
                if weak is not None and weak() is s:
                    was = j
            keep.append(s)
            size = s.size
            return {"was": was, "size": -1 if size is None else size}
        if self.emit({"op": "open", "i": i}, run):
            self.h.append([keep[0], weakref.ref(keep[0])])
            return len(self.h)
        self.h.append([None, None])
        return 0

    def drop(self, h):
        self.h[h - 1][0] = None
        self.emit({"op": "drop", "h": h}, dict)

    def use(self, h):
        r = self.r
        s = self.h[h - 1][0]
        big = r.random() < .2
        op = r.choice(("read", "read", "bits", "size", "ge", "all"))
        e = {"op": op, "h": h}
        if op == "read":
            e["a"] = r.randint(0, 2000 if big else 12)
            e["n"] = r.randint(0, 1500 if big else 12)

            def run():
                shift, data, miss = s.read(8 * e["a"], 8 * e["n"])
                if shift and data:
                    raise AssertionError("shift")
                return {"miss": miss, "data": list(data)}
        elif op == "bits":
            e["a"], e["n"] = r.randint(0, 90), r.randint(1, 16)

            def run():
                return {"v": s.readBits(e["a"], e["n"], BIG_ENDIAN)}
        elif op == "size":
            def run():
                return {"v": -1 if s.size is None else s.size}
        elif op == "ge":
            e["n"] = r.randint(1, 30000 if big else 150)

            def run():
                return {"v": bool(s.sizeGe(e["n"]))}
        else:
            def run():
                return {"data": list(FileFromInputStream(s).read())}
        self.emit(e, run)

    def index(self, field):
        for i in range(1, len(self.doc) + 1):
            if field is not None and self.find(i) is field:
                return i
        return 0

    def kids(self, i):
        def run():
            return {"v": [f.name for f in self.find(i)]}
        if self.emit({"op": "kids", "i": i}, run):
            for nm in self.ev[-1]["res"]["v"]:
                if nm in ("first", "next"):
                    self.emit({"op": "follow", "i": i, "nm": nm},
                              lambda: {"v": self.index(self.find(i)[nm].value)})

    def resolve(self, i):
        self.emit({"op": "resolve", "i": i},
                  lambda: {"v": self.index(self.find(i).value)})

    def play(self, count):
        r = self.r
        opens = [i for i, it in enumerate(self.doc, 1) if it["k"] != "link"
                 and (it["k"] != "ogg" or it["z"])]
        for _ in range(count):
            live = [h for h in range(1, len(self.h) + 1) if self.h[h - 1][0] is not None]
            x = r.random()
            if opens and (not live or x < .25):
                self.open(r.choice(opens))
            elif live and x < .32:
                # handles may share the stream: drop all of them
                h = r.choice(live)
                s = self.h[h - 1][0]
                for j in live:
                    if self.h[j - 1][0] is s:
                        self.drop(j)
                del s
            elif x < .42:
                links = [i for i, it in enumerate(self.doc, 1) if it["k"] == "link"]
                frs = [i for i, it in enumerate(self.doc, 1) if it["k"] == "frag"]
                if links and (not frs or r.random() < .5):
                    self.resolve(r.choice(links))
                elif frs:
                    self.kids(r.choice(frs))
            elif live:
                self.use(r.choice(live))
        return self.t


def record(job):
    kind, seed = job
    r = random.Random("%s-%s" % (kind, seed))
    fat = ()
    if kind == "doc":
        src, doc = rand_doc(r)
        root = build(doc)(StringInputStream(src or b"\0"))

        def find(i):
            return root[doc[i - 1]["nm"]]
        if r.random() < .4:
            for _ in root:
                pass
    elif kind == "fat":
        cls, src, fat, doc = fat_image(r)
        root = cls(StringInputStream(src))
        rooted = cls is FAT32 and src[44] != 2
        if r.random() < .3:
            for _ in root:
                pass

        def find(i):
            if rooted:
                rd = root["root"].value
            else:
                rd = root["root[0]"]
            for e in rd:
                if "data" in e and e["name"].value.strip() == doc[i - 1]["nm"]:
                    return e["data"].value
    elif kind == "ogg":
        src, doc = ogg_file(r)
        from hachoir.parser.container.ogg import OggFile
        root = OggFile(StringInputStream(src))

        def find(i):
            return root[i - 1]["segments"]
    elif kind == "png":
        src, doc = png_file(r)
        from hachoir.parser.image.png import PngFile
        root = PngFile(StringInputStream(src))

        def find(i):
            return root[doc[i - 1]["nm"]]
    else:           # gzip, bzip2
        plain = bytes(r.randrange(256) for _ in range(r.choice((1, 400, 3000)))) * r.choice((1, 3))
        src = gzip.compress(plain, mtime=r.randrange(1 << 31)) if kind == "gzip" else bz2.compress(plain)
        doc = [ditem(k="win", nm="file", codec="given", plain=list(plain))]
        root = (GzipParser if kind == "gzip" else Bzip2Parser)(StringInputStream(src))

        def find(i):
            return root["file"]
    rec = Recorder(r, root, doc, find, src, fat, "%s-%s" % (kind, seed))
    return rec.play(r.randint(5, 20))


def replay(job):
    """A behaviour of EmbedMC on the real streams."""
    kind, n, x, ops = job
    r = random.Random(n)
    if kind == "frag":
        src = bytes(range(8))
        # the windows of the chain may overlap or repeat: fields of their own
        doc = [ditem(k="frag", nm="f%d" % i, a=c["a"], z=c["z"], da=c["a"], dz=c["z"],
                     fst=1, nxt=i + 1 if i < len(x) else 0)
               for i, c in enumerate(x, 1)]

        class Fake:
            pass
        from hachoir.stream import FragmentedStream
        root = Parser(StringInputStream(src)) if False else None
        fs = []
        stream = StringInputStream(src)
        for c in x:
            f = Fake()
            f.stream, f.absolute_address, f.size = stream, 8 * c["a"], 8 * c["z"]
            f.path = "/f"
            f.parent = f
            f.getData = lambda f=f: f
            fs.append(f)
        for f, g in zip(fs, fs[1:] + [None]):
            f.next = g
        s = FragmentedStream(fs[0])
        todo = [("read", a, m) for a, m in ops]
    else:
        # input byte i gives x[i] copies
        src = bytes(4 * (i + 1) + v for i, v in enumerate(x)) or b""
        doc = [ditem(k="win", nm="c", a=0, z=len(src), codec="rep")]
        ev = []
        if not src:
            return None
        from hachoir.field.sub_file import CompressedStream
        state = {"over": False}

        def decomp(stream):
            rep = Rep("some")

            def run(size, data=b""):
                return rep.run(size if not state["over"] else 10 ** 6, data)
            return run

        class Chunky:
            """A stream giving its data in chunks."""
            size = 8 * len(src)
            n = 1

            def read(self, a, m):
                m = min(m, 8 * Chunky.n)
                return 0, src[a // 8:(a + m) // 8], False
        s = CompressedStream(Chunky(), decomp)
        pos = 0
        todo = []
        for size, over, ch in ops:
            state["over"] = over
            Chunky.n = ch
            d = s.read(size)
            ev.append({"op": "read", "h": 1, "a": pos, "n": size, "cnt": 1,
                       "res": {"t": "ok", "miss": len(d) < size, "data": list(d)}})
            pos += len(d)
        head = {"op": "open", "i": 1, "cnt": 1, "res": {"t": "ok", "was": 0, "size": -1}}
        clean = [{k: it[k] for k in ITEM} for it in doc]
        return {"name": "comp-%d" % n, "src": list(src), "fat": [], "doc": clean, "ev": [head] + ev}
    ev = [{"op": "open", "i": 1, "cnt": len(doc),
           "res": {"t": "ok", "was": 0, "size": -1 if s.size is None else s.size}}]
    for _, a, m in todo:
        e = {"op": "read", "h": 1, "a": a, "n": m, "cnt": len(doc)}
        try:
            shift, data, miss = s.read(8 * a, 8 * m)
            e["res"] = {"t": "ok", "miss": miss, "data": list(data)}
        except Exception as err:
            e["res"] = {"t": "err", "x": exc_name(err)}
        ev.append(e)
    clean = [{k: it[k] for k in ITEM} for it in doc]
    return {"name": "frag-%d" % n, "src": list(src), "fat": [], "doc": clean, "ev": ev}
