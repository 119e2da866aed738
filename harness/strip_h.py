"""Driver of hachoir.strip: documents of every supported type, written by a
generator of its own, stripped for every selection."""
import contextlib
import hashlib
import io
import os
import random
import shutil
import struct
import sys
import tempfile
import zlib
from lib import exc_name, REPO
import hachoir.strip as hs
from hachoir.editor import createEditor
from hachoir.parser import createParser

BIT = {"useless": hs.STRIP_USELESS, "metadata": hs.STRIP_METADATA,
       "index": hs.STRIP_INDEX}
EXT = {"png": ".png", "jpeg": ".jpg", "mp3": ".mp3", "au": ".au",
       "tar": ".tar"}


def L(b):
    return list(b)


# --- bytes of a document (checked against the specification) --------------
def chunk(c):
    if bytes(c["tag"]) == b"LIST":
        b = bytes(c["sub"]) + b"".join(map(chunk, c["ch"]))
    else:
        b = bytes(c["d"])
    return bytes(c["tag"]) + struct.pack("<I", len(b)) + b + b"\0" * (len(b) % 2)


def render(t):
    f = t["fmt"]
    if f == "riff":
        b = bytes(t["type"]) + b"".join(map(chunk, t["ch"]))
        return b"RIFF" + struct.pack("<I", len(b)) + b + bytes(t["tail"])
    if f == "png":
        return b"\x89PNG\r\n\x1a\n" + b"".join(
            struct.pack(">I", len(c["d"])) + bytes(c["tag"] + c["d"] + c["crc"])
            for c in t["ch"])
    if f == "jpeg":
        return b"\xff\xd8" + b"".join(
            bytes([255, c["type"]]) + struct.pack(">H", len(c["d"]) + 2)
            + bytes(c["d"]) for c in t["ch"]) + b"\xff\xd9"
    if f == "mp3":
        return bytes(t["v2"] + t["frames"] + t["v1"])
    if f == "au":
        return b".snd" + struct.pack(">I", 24 + len(t["info"])) \
            + bytes(t["head"] + t["info"] + t["audio"])
    return b"".join(bytes(c["h"] + c["d"]) + b"\0" * (-len(c["d"]) % 512)
                    for c in t["ch"]) + bytes(t["tail"])


# --- random documents ------------------------------------------------------
def rc(tag, d=b"", sub=b"", ch=()):
    return {"tag": L(tag), "d": L(d), "sub": L(sub), "ch": list(ch)}


def info(r):
    return rc(b"LIST", sub=b"INFO", ch=[
        rc(r.choice((b"INAM", b"IART", b"ISFT", b"ICRD", b"IXYZ")),
           bytes(r.randint(65, 90) for _ in range(r.randint(1, 9))))
        for _ in range(r.randint(0, 3))])


def junk(r):
    return rc(b"JUNK", r.randbytes(r.choice((1, 4, 7, 12))))


def riff(r):
    kind = r.choice((b"WAVE", b"AVI ", b"AVI ", b"CDDA"))
    extra = [lambda: junk(r), lambda: info(r),
             lambda: rc(b"abcd", r.randbytes(r.randint(1, 9)))]
    if kind == b"WAVE":
        ch = [rc(b"fmt ", struct.pack("<HHIIHH", 1, 1, 8000, 8000, 1, 8))]
        body = [rc(b"data", r.randbytes(r.randint(1, 40)))]
        if r.random() < .6:
            body.insert(r.choice((0, 1)), rc(b"fact", r.randbytes(4)))
    elif kind == b"CDDA":
        ch = [rc(b"fmt ", r.randbytes(24))]
        body = []
    else:
        flags = r.getrandbits(32) & 0b1100000011000100110000
        avih = rc(b"avih", struct.pack(
            "<IIII10I", 40000, 1000, 0, flags, 3, 0, 1, 0, 320, 200, 1, 25,
            0, 3))
        strl = rc(b"LIST", sub=b"strl", ch=[rc(b"strd", b"ab12")])
        hd = [avih, strl]
        for _ in range(r.choice((0, 0, 1, 2))):
            hd.insert(r.randint(1, len(hd)), r.choice(extra)())
        ch = [rc(b"LIST", sub=b"hdrl", ch=hd)]
        mv = [rc(r.choice((b"00dc", b"01wb", b"JUNK")), r.randbytes(
            r.randint(1, 12))) for _ in range(r.randint(1, 4))]
        body = [rc(b"LIST", sub=b"movi", ch=mv)]
        if r.random() < .15:
            body.append(rc(b"LIST", sub=b"movi", ch=[junk(r)]))
        if r.random() < .7:
            body.append(rc(b"idx1", r.randbytes(16 * r.randint(1, 3))))
    for _ in range(r.choice((0, 0, 1, 1, 2, 3))):
        body.insert(r.randint(0, len(body)), r.choice(extra)())
    return {"fmt": "riff", "type": L(kind), "ch": ch + body,
            "tail": L(r.randbytes(r.choice((0, 0, 0, 3, 10))))}


def pc(tag, d):
    return {"tag": L(tag), "d": L(d),
            "crc": L(struct.pack(">I", zlib.crc32(tag + d)))}


def png(r):
    ch = [pc(b"IHDR", struct.pack(">IIBBBBB", 3, 2, 8, 0, 0, 0, 0))]
    mid = [pc(b"IDAT", zlib.compress(bytes(8)))]
    for _ in range(r.randint(0, 5)):
        mid.insert(r.randint(0, len(mid)), r.choice((
            lambda: pc(b"tEXt", b"Title\0" + r.randbytes(r.randint(1, 5))),
            lambda: pc(b"tIME", struct.pack(">HBBBBB", 2001, 2, 3, 4, 5, 6)),
            lambda: pc(b"zTXt", b"abc\0\0" + zlib.compress(b"x")),
            lambda: pc(b"gAMA", struct.pack(">I", 45455)),
            lambda: pc(b"abCd", r.randbytes(r.randint(0, 6)))))())
    return {"fmt": "png", "ch": ch + mid + [pc(b"IEND", b"")]}


def jpeg(r):
    sg = [{"type": 0xe0, "d": L(b"JFIF\0\1\1\1\0\x48\0\x48\0\0")}]
    if r.random() < .2:
        sg = []
    sg.append({"type": 0xdb, "d": [0] + [r.randint(1, 99) for _ in range(64)]})
    for _ in range(r.randint(0, 6)):
        sg.insert(r.randint(0, len(sg)), {
            "type": r.choice((0xfe, 0xfe, 0xed, 0xee, 0xe2, 0xec, 0xe1)),
            "d": L(r.randbytes(r.randint(1, 20)))})
        if r.random() < .3:
            sg.insert(r.randint(0, len(sg)), {
                "type": 0xe1, "d": L(b"Exif\0\0" + r.choice((
                    r.randbytes(8), b"II*\0\x08\0\0\0\0\0\0\0\0\0")))})
        if r.random() < .15:
            sg.append({"type": 0xe1, "d": L(b"http://ns.adobe.com/xap/")})
    sg.append({"type": 0xc4, "d": [0] + [0] * 15 + [1, 5]})
    return {"fmt": "jpeg", "ch": sg}


def frames():
    with open(REPO + "/tests/files/sheep_on_drugs.mp3", "rb") as f:
        d = f.read()
    size = 0
    if d[:3] == b"ID3":
        size = 10 + (d[6] << 21 | d[7] << 14 | d[8] << 7 | d[9])
    return d[size:]


def mp3(r):
    # MPEG 1 layer III, 32 kbit/s, 32 kHz, mono: 144 bytes by frame
    fr = b"".join(b"\xff\xfb\x18\xc0" + bytes(140)
                  for _ in range(r.randint(6, 9)))
    v2 = b""
    if r.random() < .6:
        fm = b""
        for _ in range(r.randint(0, 3)):
            t = b"\0" + bytes(r.randint(65, 90) for _ in range(r.randint(1, 7)))
            fm += r.choice((b"TIT2", b"TPE1", b"TALB")) \
                + struct.pack(">IH", len(t), 0) + t
        fm += bytes(r.choice((0, 0, 10)))
        v2 = b"ID3\3\0\0" + bytes([0, 0, len(fm) >> 7, len(fm) & 127]) + fm
    v1 = b""
    if r.random() < .6:
        v1 = b"TAG" + bytes(r.randint(65, 90) for _ in range(30)) + bytes(95)
    return {"fmt": "mp3", "v2": L(v2), "frames": L(fr), "v1": L(v1)}


def au(r):
    audio = r.randbytes(r.randint(1, 30))
    inf = bytes(r.randint(32, 126) for _ in range(r.choice((0, 1, 4, 8, 15))))
    return {"fmt": "au", "info": L(inf), "audio": L(audio),
            "head": L(struct.pack(">IIII", len(audio), 1, 8000, 1))}


def tar(r):
    ch = []
    for _ in range(r.randint(1, 3)):
        d = r.randbytes(r.choice((0, 1, 100, 512, 600)))
        h = bytearray(512)

        def put(a, b):
            h[a:a + len(b)] = b
        put(0, b"dir/f%d" % r.randint(0, 999))
        put(100, b"0000644\0")
        blank = r.random() < .3
        put(108, b"%07o\0" % (0 if blank else r.randint(0, 5000)))
        put(116, r.choice((b"%07o\0", b"%06o \0"))
            % (0 if blank else r.randint(0, 100)))
        put(124, b"%011o\0" % len(d))
        put(136, b"%011o\0" % (0 if blank else r.randint(0, 1 << 31)))
        put(148, b" " * 8)
        put(156, r.choice((b"0", b"0", b"5", b"\0")))
        put(257, r.choice((b"ustar  \0", b"ustar  \0", b"ustar\000")) )
        if not blank and r.random() < .8:
            put(265, b"user%d" % r.randint(0, 99))
            put(297, b"g" * r.randint(0, 31))
        put(329, b"0000000\0" * r.choice((0, 2)))
        put(345, b"p" * r.choice((0, 0, 20, 154)))
        if r.random() < .2:
            put(157, bytes(r.randint(128, 255) for _ in range(99)))
            put(0, bytes(r.randint(200, 255) for _ in range(90)))
        put(148, r.choice((b"%06o\0 ", b"0%05o\0 "))
            % (sum(h) if r.random() < .9 else 17))
        ch.append({"h": L(h), "d": L(d)})
    return {"fmt": "tar", "ch": ch, "tail": [0] * (512 * r.choice((1, 2, 4)))}


MAKE = {"riff": riff, "png": png, "jpeg": jpeg, "mp3": mp3, "au": au,
        "tar": tar}


# --- stripping -------------------------------------------------------------
def sizes(path, cls=None):
    p = createParser(path)
    if p is None:
        return None, []
    with p:
        return type(p), [f.size // 8 for f in p]


def strip(path, level, mode, r):
    """Strip the file; the path of the output, or None."""
    new = path + ".new"
    if mode == "main":
        argv = sys.argv
        sys.argv = ["hachoir-strip", "--quiet", "--strip="
                    + r.choice((",", ", ")).join(level), path]
        try:
            hs.main()
        except SystemExit:
            pass
        finally:
            sys.argv = argv
    else:
        p = createParser(path)
        ed = createEditor(p)
        if mode == "peek":          # the parts were looked at before
            list(ed)
            ed.size
        new = path + ".out"
        hs.stripEditor(ed, new, sum(BIT[x] for x in level), False)
        p.stream._input.close() if hasattr(p.stream, "_input") else None
    return new if os.path.exists(new) else None


def suffix(t):
    if t["fmt"] == "riff":
        return {"WAVE": ".wav", "AVI ": ".avi", "CDDA": ".cda"}.get(
            bytes(t["type"]).decode(), ".ani")
    return EXT[t["fmt"]]


def record(job):
    r = random.Random("strip%s" % job["name"])
    t = job.get("doc") or MAKE[job["fmt"]](r)
    tmp = tempfile.mkdtemp(prefix="verif-strip-")
    ev = []
    out = io.StringIO()
    try:
        with contextlib.redirect_stdout(out), contextlib.redirect_stderr(out):
            path = os.path.join(tmp, "doc" + suffix(t))
            data = render(t)
            with open(path, "wb") as f:
                f.write(data)
            cls, sz = sizes(path)
            ev.append({"op": "source", "d": L(data), "sizes": sz})
            for k in range(job.get("count", 3)):
                level = r.sample(sorted(BIT), r.randint(1, 3))
                if k and r.random() < .4:
                    level = ev[-1]["level"]
                e = {"op": "strip", "level": level, "res": "ok", "d": [],
                     "dirty": False, "kept": True, "accepted": True,
                     "sizes": []}
                try:
                    new = strip(path, level, r.choice(("main", "call", "peek")),
                                r)
                    with open(path, "rb") as f:
                        e["kept"] = f.read() == data
                    if new:
                        with open(new, "rb") as f:
                            data = f.read()
                        e["dirty"] = True
                        e["d"] = L(data)
                        os.unlink(path)
                        os.rename(new, path)
                        c2, e["sizes"] = sizes(path)
                        e["accepted"] = c2 is cls
                except Exception as err:
                    e["res"] = exc_name(err)
                ev.append(e)
                if e["res"] != "ok":
                    break
    finally:
        shutil.rmtree(tmp)
    return {"name": job["name"], "doc": t, "parts": [], "ev": ev}


# --- real files ------------------------------------------------------------
def parts(path):
    with open(path, "rb") as f:
        data = f.read()
    p = createParser(path)
    if p is None:
        return None, None
    with p:
        return type(p), [
            {"kind": f.name.partition("[")[0], "sz": f.size // 8,
             "dig": hashlib.sha256(data[f.address // 8:
                                        (f.address + f.size) // 8]).hexdigest()}
            for f in p]


def record_real(job):
    r = random.Random(job["name"])
    tmp = tempfile.mkdtemp(prefix="verif-strip-")
    out = io.StringIO()
    ev = []
    try:
        with contextlib.redirect_stdout(out), contextlib.redirect_stderr(out):
            path = os.path.join(tmp, os.path.basename(job["file"]))
            shutil.copy(job["file"], path)
            cls, first = parts(path)
            if cls not in (hs.PngFile, hs.JpegFile, hs.MpegAudioFile):
                return None
            for level in job["levels"]:
                e = {"op": "real", "level": level, "res": "ok",
                     "dirty": False, "parts": []}
                try:
                    new = strip(path, level, r.choice(("main", "call")), r)
                    if new:
                        e["dirty"] = True
                        os.rename(new, path)
                        c2, e["parts"] = parts(path)
                        if c2 is not cls:
                            e["res"] = "other type"
                except Exception as err:
                    e["res"] = exc_name(err)
                ev.append(e)
    finally:
        shutil.rmtree(tmp)
    return {"name": job["name"], "doc": {"fmt": "none"}, "parts": first,
            "ev": ev}


def read_riff(data):
    """A RIFF file as a document, or None when it is not made of chunks."""
    def chunks(a, end):
        res = []
        while a + 8 <= end:
            tag, n = data[a:a + 4], struct.unpack("<I", data[a + 4:a + 8])[0]
            b = a + 8
            if b + n + n % 2 > end or (n % 2 and data[b + n]):
                raise ValueError
            if tag == b"LIST":
                res.append(rc(tag, sub=data[b:b + 4],
                              ch=chunks(b + 4, b + n)))
            else:
                res.append(rc(tag, data[b:b + n]))
            a = b + n + n % 2
        if a != end:
            raise ValueError
        return res
    size = struct.unpack("<I", data[4:8])[0] + 8
    try:
        return {"fmt": "riff", "type": L(data[8:12]),
                "ch": chunks(12, size), "tail": L(data[size:])}
    except ValueError:
        return None
