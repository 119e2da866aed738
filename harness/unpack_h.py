"""Driver of the receivers of packed data (spec/Unpack.tla): archives around
packed texts, read through hachoir."""
import bz2
import io
import random
import struct
import tarfile
import zipfile
import zlib

from lib import exc_name
from hachoir.parser import guessParser
from hachoir.parser.archive import (ArchiveFile, Bzip2Parser, CabFile,
                                    GzipParser, MarFile, TarFile, ZipFile)
from hachoir.parser.archive.lzx import lzx_decompress
from hachoir.parser.archive.zlib import ZlibData, zlib_inflate
from hachoir.parser.container import SwfFile
from hachoir.parser.image import PngFile
from hachoir.stream import StringInputStream
from hachoir.stream.input import ReadStreamError

KINDS = ("zlib", "raw", "gzip", "zip", "cab", "tar", "mar", "ar", "bzip2",
         "png", "swf")
LETTERS = b"aaaaabcdPK\x07\x08\xe8\0\xff\n"


def text(r):
    """A text with repetitions."""
    out = bytearray()
    for _ in range(r.randint(1, 12)):
        c = r.random()
        if c < .4 or not out:
            out += bytes(r.choice(LETTERS) for _ in range(r.randint(1, 20)))
        elif c < .6:
            out += bytes(r.randrange(256) for _ in range(r.randint(1, 40)))
        elif c < .8:
            d = r.randint(1, min(len(out), r.choice((4, 50, 400))))
            for _ in range(r.choice((3, 4, 10, 40, 258))):
                out.append(out[-d])
        else:
            out += bytes((r.choice(LETTERS),)) * r.choice((3, 20, 130))
    return bytes(out)


def far_text(r):
    """A text with repetitions from far away."""
    out = bytearray(r.randrange(256) for _ in range(12 * 12))
    pieces = list(range(12))
    r.shuffle(pieces)
    total = r.choice((700, 5000, 20000, 36000))
    for i in pieces:
        out += bytes((r.randrange(256),)) * r.randint(0, total // 6)
        out += out[12 * i:12 * i + 12]
    return bytes(out)


def deflate(r, plain, wbits=-15, zdict=None):
    """Packed by zlib."""
    args = (r.choice((0, 1, 6, 9)) if len(plain) < 2000 else 9, zlib.DEFLATED, wbits, r.choice((1, 8)),
            r.choice((zlib.Z_DEFAULT_STRATEGY, zlib.Z_FIXED,
                      zlib.Z_HUFFMAN_ONLY, zlib.Z_RLE))
            if len(plain) < 2000 else zlib.Z_DEFAULT_STRATEGY)
    c = zlib.compressobj(*args, zdict) if zdict else zlib.compressobj(*args)
    out = b""
    rest = plain
    while rest and r.random() < .4:
        n = r.randint(1, len(rest))
        out += c.compress(rest[:n]) + c.flush(r.choice((zlib.Z_SYNC_FLUSH,
                                                        zlib.Z_FULL_FLUSH)))
        rest = rest[n:]
    return out + c.compress(rest) + c.flush()


def part(codec, packed, lev=0, plain=None, blocks=()):
    return {"codec": codec, "lev": lev, "bytes": list(packed),
            "blocks": [list(b) for b in blocks],
            "known": plain is not None, "text": list(plain or b"")}


def parts(r, docs, codecs, n):
    """n packed texts: of the specification, or packed by others."""
    out = []
    for _ in range(n):
        codec = r.choice(codecs)
        if codec in docs and r.random() < .6:
            # (nothing cannot be opened)
            d = r.choice([d for d in docs[codec] if d["size"]])
            out.append(part(codec, d["bytes"], d["lev"]))
        else:
            far = codec == "deflate" and r.random() < .07
            plain = far_text(r) if far else text(r)
            if codec == "deflate":
                out.append(part(codec, deflate(r, plain), 0, plain))
            elif codec == "bzip2":
                out.append(part(codec, bz2.compress(plain, r.randint(1, 9)),
                                0, plain))
            else:
                out.append(part("store", plain, 0, plain))
    return out


def plain_of(p):
    """The text, for the checksums only."""
    if p["codec"] == "deflate":
        return zlib.decompress(bytes(p["bytes"]), -15)
    return bytes(p["text"] if p["known"] else p["bytes"])


def in_zlib(p):
    return (b"\x78\x9c" + bytes(p["bytes"])
            + struct.pack(">I", zlib.adler32(plain_of(p))))


def gzip(r, p):
    flags = r.choice((0, 0, 2, 4, 8, 16, 24, 30))
    out = b"\x1f\x8b\x08" + bytes((flags,)) + struct.pack("<I", 10 ** 9)
    out += bytes((r.choice((0, 2, 4)), r.choice((0, 3, 11))))
    if flags & 4:
        extra = bytes(r.randint(1, 9))
        out += struct.pack("<H", len(extra)) + extra
    if flags & 8:
        out += b"name" + r.choice((b".txt", b"", b".gz")) + b"\0"
    if flags & 16:
        out += b"some words\0"
    if flags & 2:
        out += b"\x12\x34"
    t = plain_of(p)
    return (out + bytes(p["bytes"])
            + struct.pack("<II", zlib.crc32(t), len(t)))


def zipped(r, ps):
    """Entries with or without a descriptor behind them."""
    out, directory = b"", b""
    for i, p in enumerate(ps):
        t = plain_of(p)
        name = ("f%d%s" % (i, r.choice((".txt", "", "/a.png")))).encode()
        extra = r.choice((b"", b"UT\5\0\1\0\0\0\0"))
        packed = bytes(p["bytes"])
        crc = zlib.crc32(t) or 1
        late = p.setdefault("late", False)
        head = struct.pack("<HHHHHIIIHH", 20, 8 if late else 0,
                           8 if p["codec"] == "deflate" else 0, 0, 33,
                           0 if late else crc, 0 if late else len(packed),
                           0 if late else len(t), len(name), len(extra))
        directory += (b"PK\1\2" + struct.pack("<H", 20)
                      + struct.pack("<HHHHHIIIHH", 20, 8 if late else 0,
                                    8 if p["codec"] == "deflate" else 0, 0,
                                    33, crc, len(packed), len(t), len(name),
                                    0)
                      + struct.pack("<HHHII", 0, 0, 0, 0, len(out)) + name)
        out += b"PK\3\4" + head + name + extra + packed
        if late:
            out += b"PK\7\10" + struct.pack("<III", crc, len(packed), len(t))
    return (out + directory + b"PK\5\6"
            + struct.pack("<HHHHIIH", 0, 0, len(ps), len(ps), len(directory),
                          len(out), 0))


def cabinet(r, folders, lens):
    """Folders of data blocks; lens: the files of each (offset, size)."""
    names = b""
    for i, files in enumerate(lens):
        for j, (at, n) in enumerate(files):
            names += (struct.pack("<IIHI", n, at, i, 33 << 16)
                      + b"\x20\0" + b"f%d_%d\0" % (i, j))
    nb = sum(len(f) for f in lens)
    reserved = r.random() < .3
    head = 36 + (4 if reserved else 0)
    gap = r.choice((0, 0, 5))
    at = head + (8 + (2 if reserved else 0)) * len(folders) + len(names) + gap
    table, data = [b""] * len(folders), b""
    order = list(range(len(folders)))
    if r.random() < .5:
        # (the data can be in any order)
        r.shuffle(order)
    for i in order:
        p = folders[i]
        code = {"store": 0, "mszip": 1, "lzx": 3 | p["lev"] << 8}[p["codec"]]
        blocks = p["blocks"] or [p["bytes"]]
        table[i] = struct.pack("<IHH", at + len(data), len(blocks), code)
        if reserved:
            table[i] += b"\1\2"
        for b in blocks:
            b = (b"CK" if p["codec"] == "mszip" else b"") + bytes(b)
            data += struct.pack("<IHH", 0, len(b), 1)
            if reserved:
                data += b"\1\2\3"
            data += b
    table = b"".join(table)
    files_at = head + len(table)
    body = table + names + bytes(gap) + data
    return (b"MSCF" + struct.pack("<IIIIIBBHHHHH", 0, head + len(body), 0,
                                  files_at, 0, 3, 1, len(folders), nb,
                                  4 if reserved else 0, 7, 0)
            + (struct.pack("<HBB", 0, 2, 3) if reserved else b"") + body)


def mszip(r, docs):
    """Blocks which go on with the text of the one before."""
    if r.random() < .3:
        d = r.choice([d for d in docs["deflate"] if d["size"]])
        return part("mszip", [], blocks=[d["bytes"]])
    blocks, before, whole = [], b"", b""
    for _ in range(r.randint(1, 3)):
        t = far_text(r) if r.random() < .05 else text(r)
        if before and r.random() < .5:
            t = before[-r.randint(1, len(before)):] + t
        blocks.append(deflate(r, t, zdict=before or None))
        before, whole = before + t, whole + t
    return part("mszip", [], 0, whole, blocks)


def tared(r, ps):
    out = io.BytesIO()
    with tarfile.open(fileobj=out, mode="w",
                      format=tarfile.USTAR_FORMAT) as t:
        for i, p in enumerate(ps):
            info = tarfile.TarInfo("f%d" % i)
            info.size = len(p["bytes"])
            t.addfile(info, io.BytesIO(bytes(p["bytes"])))
    return out.getvalue()


def marred(r, ps):
    table = data = b""
    at = 12 + 68 * len(ps) + r.choice((0, 7))
    data = bytes(at - 12 - 68 * len(ps))
    order = list(range(len(ps)))
    r.shuffle(order)
    where = {}
    for i in order:
        where[i] = 12 + 68 * len(ps) + len(data)
        data += bytes(ps[i]["bytes"]) + bytes(r.choice((0, 0, 3)))
    for i, p in enumerate(ps):
        table += (b"f%d" % i).ljust(56, b"\0") + struct.pack(
            "<III", len(p["bytes"]), 5, where[i])
    return (b"MARC" + struct.pack("<II", 3, len(ps)) + table + data,
            order)


def arred(r, ps):
    out = b"!<arch>\n"
    for i, p in enumerate(ps):
        out += (b"f%d/" % i).ljust(16) + b"0".ljust(12) + b"0".ljust(6)
        out += b"0".ljust(6) + b"644".ljust(8)
        out += b"%-10d`\n" % len(p["bytes"]) + bytes(p["bytes"])
        if len(p["bytes"]) % 2:
            out += b"\n"
    return out


def chunk(tag, data):
    return (struct.pack(">I", len(data)) + tag + data
            + struct.pack(">I", zlib.crc32(tag + data)))


def png(r, p):
    z = in_zlib(p)
    out = b"\x89PNG\r\n\x1a\n" + chunk(b"IHDR", struct.pack(">IIBBBBB", 4, 4,
                                                            8, 2, 0, 0, 0))
    while z:
        n = r.choice((len(z), r.randint(1, len(z)), 1))
        out += chunk(b"IDAT", z[:n])
        z = z[n:]
    return out + chunk(b"IEND", b"")


def build(r, kind, docs):
    """bytes, parser class, parts, [(part, field path or None)]"""
    if kind in ("zlib", "raw", "gzip", "png", "swf"):
        p = parts(r, docs, ["deflate"], 1)
        if kind == "zlib":
            return in_zlib(p[0]), ZlibData, p, []
        if kind == "raw":
            return bytes(p[0]["bytes"]), None, p, []
        if kind == "gzip":
            return gzip(r, p[0]), GzipParser, p, [(1, "file")]
        if kind == "png":
            return png(r, p[0]), PngFile, p, [(1, "data[0]/compressed_data")]
        t = len(plain_of(p[0]))
        head = struct.pack("<BI", 6, 8 + t)
        p.append(part("store", b"FWS" + head))
        return b"CWS" + head + in_zlib(p[0]), SwfFile, p, [(3, "compressed_data")]
    if kind == "bzip2":
        p = parts(r, docs, ["bzip2"], 1)
        return bytes(p[0]["bytes"]), Bzip2Parser, p, [(1, "file")]
    n = r.randint(1, 4)
    if kind == "zip":
        ps = parts(r, docs, ["deflate", "store"], n)
        for p in ps:
            # (where the text ends has to be clear)
            p["late"] = r.random() < .3 and b"PK" not in bytes(p["bytes"])
        return zipped(r, ps), ZipFile, ps, [
            (i + 1, "file[%d]/%s" % (i, "data" if p["codec"] == "store"
                                     else "compressed_data"))
            for i, p in enumerate(ps)]
    if kind == "cab":
        ps = []
        for _ in range(n):
            c = r.random()
            if c < .4:
                ps.append(mszip(r, docs))
            elif c < .7:
                d = r.choice(docs["lzx"])
                ps.append(part("lzx", d["bytes"], d["lev"]))
                ps[-1]["size"] = d["size"]
            else:
                t = text(r)
                cut = r.randint(0, len(t))
                ps.append(part("store", t, 0, t, [b for b in (t[:cut], t[cut:])
                                                  if b]))
        lens = []
        for p in ps:
            size = p.get("size") or (len(p["text"]) if p["known"] else 0)
            lens.append([])
            at = 0
            while at < size:
                n = r.randint(1, size - at)
                lens[-1].append((at, n))
                at += n
                if r.random() < .3:
                    break
            r.shuffle(lens[-1])
        data = cabinet(r, ps, lens)
        for p, l in zip(ps, lens):
            p["files"] = l
        return data, CabFile, ps, [(i + 1, "folder_data[%d]" % i)
                                   for i in range(len(ps))]
    ps = parts(r, docs, ["store"], n)
    if kind == "tar":
        return tared(r, ps), TarFile, ps, [(i + 1, "file[%d]/content" % i)
                                           for i in range(len(ps))]
    if kind == "mar":
        data, order = marred(r, ps)
        return data, MarFile, ps, [(i + 1, "data[%d]" % k)
                                   for k, i in enumerate(order)]
    return arred(r, ps), ArchiveFile, ps, [(i + 1, "file[%d]/content" % i)
                                           for i in range(len(ps))]


def blank(op, p, **kw):
    e = {"op": op, "part": p, "at": 0, "n": 0, "got": [], "raised": "no"}
    e.update(kw)
    return e


def whole(r, stream):
    """Read to the end, piece by piece."""
    out, pos = b"", 0
    step = r.choice((1, 3, 100, 5000, 1 << 16))
    if step == 1 and r.random() < .5:
        step = 7
    while True:
        n = 8 * step
        if stream.size is not None:
            # (more than there is cannot be read)
            n = min(n, stream.size - pos)
            if n <= 0:
                return out
        try:
            _, data, missing = stream.read(pos, n)
        except ReadStreamError:
            # nothing is left
            return out
        out += bytes(data)
        pos += 8 * len(data)
        if missing or not data or len(out) > 200000:
            return out
        if len(out) > 3000:
            step = max(step, 5000)


def sub_events(r, field, p, ev):
    stream = field.getSubIStream()
    for _ in range(r.randint(0, 3)):
        at, n = r.choice((0, r.randint(0, 60))), r.randint(1, 40)
        try:
            _, data, _ = stream.read(8 * at, 8 * n)
            ev.append(blank("read", p, at=at, n=n, got=list(data)))
        except Exception as err:
            ev.append(blank("read", p, at=at, n=n, raised=exc_name(err)))
    ev.append(blank("whole", p, got=list(whole(r, stream))))
    if stream.size is not None:
        ev.append(blank("size", p, n=stream.size))
    return stream


def record(job):
    r = random.Random(job["seed"])
    kind = job["kind"]
    data, cls, ps, subs = build(r, kind, job["docs"])
    ev = []

    def attempt(op, p, func):
        try:
            func()
        except Exception as err:
            ev.append(blank(op, p, raised=exc_name(err)))

    stream = StringInputStream(data, source="<packed>")
    if kind in ("zlib", "raw"):
        def inflate():
            got = zlib_inflate(stream, -15 if kind == "raw" else None)
            ev.append(blank("whole", 1, got=list(got)))
        attempt("whole", 1, inflate)
        if kind == "zlib":
            def again():
                root = ZlibData(StringInputStream(data))
                if r.random() < .5:
                    [f.path for f in root]
                if r.random() < .5:
                    root["data/compressed_block[0]"].size
                ev.append(blank("whole", 1,
                                got=list(root["data"].uncompressed_data)))
            attempt("whole", 1, again)
    else:
        root = cls(stream)
        if root.validate() is not True:
            ev.append(blank("parser", 1, raised=str(root.validate())))
        else:
            r.shuffle(subs)
            for p, path in subs:
                def one():
                    field = root[path]
                    if kind == "ar":
                        ev.append(blank("whole", p, got=list(field.value)))
                    s = sub_events(r, field, p, ev)
                    if kind == "cab":
                        files = guessParser(s)
                        for i, (at, n) in enumerate(sorted(ps[p - 1]["files"])):
                            ev.append(blank("file", p, at=at, n=n, got=list(
                                files["file[%d]" % i].value)))
                    if r.random() < .3:
                        sub_events(r, field, p, ev)
                attempt("whole", p, one)
    if kind == "swf":
        joined = part("joined", [])
        ps.append(joined)
    return {"name": "%s-%s" % (kind, job["seed"]),
            "hdr": {"kind": kind,
                    "parts": [{k: p[k] for k in ("codec", "lev", "bytes",
                                                 "blocks", "known", "text")}
                              for p in ps]},
            "ev": ev}


def record_lzx(job):
    """LZX alone."""
    r = random.Random(job["seed"])
    d = r.choice(job["docs"]["lzx"])
    ev = []
    try:
        got = lzx_decompress(StringInputStream(bytes(d["bytes"])), d["lev"])
        ev.append(blank("whole", 1, got=list(got)))
    except Exception as err:
        ev.append(blank("whole", 1, raised=exc_name(err)))
    return {"name": "lzx-%s" % job["seed"],
            "hdr": {"kind": "lzx", "parts": [
                {k: v for k, v in part("lzx", d["bytes"], d["lev"]).items()}]},
            "ev": ev}
