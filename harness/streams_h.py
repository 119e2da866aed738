"""Recorder for the stream specification (spec/StreamsTrace.tla)."""
import io
import os
import tempfile

from lib import exc_name
from hachoir.core.endian import BIG_ENDIAN, LITTLE_ENDIAN, MIDDLE_ENDIAN
from hachoir.stream import (InputIOStream, StringInputStream, FileInputStream,
                            InputSubStream, FragmentedStream, ConcatStream,
                            InputStreamError)
import hachoir.stream.input as hinput

EN = {"BE": BIG_ENDIAN, "LE": LITTLE_ENDIAN, "ME": MIDDLE_ENDIAN}
_pipe = getattr(hinput, "InputPipe", None)
SCALABLE = (_pipe is not None and hasattr(_pipe, "buffer_size")
            and hasattr(_pipe, "buffer_nb_min"))
REAL_B = 1 << getattr(_pipe, "buffer_size", 16)
REAL_W = getattr(_pipe, "buffer_nb_min", 256)


class RawPipe:
    """A non-seekable source which records what has been taken from it."""

    def __init__(self, data):
        self.data = data
        self.pos = 0
        self.eof = False

    def read(self, size):
        d = self.data[self.pos:self.pos + size]
        self.pos += len(d)
        if len(d) < size:
            self.eof = True
        return d


class Frag:
    """One link of a fragment chain, as FragmentedStream expects it."""

    class P:
        pass

    def __init__(self, stream, addr, size, nxt):
        self.parent = Frag.P()
        self.parent.stream = stream
        self.absolute_address = addr
        self.size = size
        self.next = nxt
        self.path = "/frag"

    def getData(self):
        return self


class Client:
    def __init__(self):
        self.calls = []

    def _setSize(self, size=None):
        self.calls.append(size)


class World:
    def __init__(self, hdr, src):
        self.hdr = hdr
        self.src = src
        self.raw = None
        self.tmp = None
        kind = hdr["kind"]
        if _pipe is not None and SCALABLE:
            b = hdr["B"]
            _pipe.buffer_size = b.bit_length() - 1
            _pipe.buffer_nb_min = hdr["W"]
        self.h = []
        for s in hdr["st"]:
            self.h.append(self.make(s, kind))
        self.clients = []
        self.views = []

    def make(self, s, kind):
        k = s["k"]
        if k == "base":
            if kind == "string":
                return StringInputStream(self.src)
            if kind == "file":
                if self.hdr.get("real"):
                    fd, self.tmp = tempfile.mkstemp(prefix="verif-stream-")
                    os.write(fd, self.src)
                    os.close(fd)
                    return FileInputStream(self.tmp)
                return InputIOStream(io.BytesIO(self.src))
            self.raw = RawPipe(self.src)
            if kind == "sized":
                return InputIOStream(self.raw, size=8 * len(self.src))
            return InputIOStream(self.raw)
        if k == "sub":
            size = None if s["size"] < 0 else s["size"]
            return InputSubStream(self.h[s["of"] - 1], s["off"], size)
        if k == "frag":
            nxt = None
            for a, n in reversed(s["frags"]):
                nxt = Frag(self.h[s["of"] - 1], a, n, nxt)
            self.keep = getattr(self, "keep", []) + [nxt]
            return FragmentedStream(nxt)
        if k == "concat":
            return ConcatStream((self.h[s["of"] - 1], self.h[s["of2"] - 1]))
        raise ValueError(k)

    def close(self):
        if self.tmp:
            try:
                self.h[0].close()
            except Exception:
                pass
            os.unlink(self.tmp)

    # flat content of a stream, for mapping data to intervals (big traces)
    def flat(self, i):
        s = self.hdr["st"][i - 1]
        if s["k"] == "base":
            return self.src
        if s["k"] == "sub":
            return self.flat(s["of"])
        raise ValueError("big traces use base and sub streams only")

    def org(self, i):
        s = self.hdr["st"][i - 1]
        return 0 if s["k"] == "base" else self.org(s["of"]) + s["off"]

    def data(self, i, a, d):
        """bytes -> what the specification compares"""
        if not self.hdr["big"]:
            return list(d)
        if not len(d):
            return []
        lo = (self.org(i) + a) // 8
        if bytes(d) == self.flat(i)[lo:lo + len(d)]:
            return [lo, lo + len(d)]
        return [-1, len(d)]

    def obs(self):
        sizes, final = [], []
        for s in self.h:
            try:
                z = s.size
            except Exception:
                z = -2
            sizes.append(-1 if z is None else z)
            try:
                final.append(bool(z is not None and s.checked))
            except Exception:
                final.append(False)
        return {"sizes": sizes, "final": final,
                "raw": self.raw.pos if self.raw else 0,
                "eof": bool(self.raw and self.raw.eof),
                "notif": [[-3 if c is None else c for c in cl.calls]
                          for cl in self.clients]}

    def do(self, e):
        op = e["op"]
        if op == "nop":
            return {"t": "ok"}
        if op in ("fseek", "ftell", "fread"):
            h, f = self.views[e["v"] - 1]
            if op == "fseek":
                f.seek(e["p"], e["w"])
                e["t0"] = 0
                return {"t": "ok"}
            if op == "ftell":
                return {"t": "ok", "v": f.tell()}
            pos = None
            if e["n"] == -2:
                d = f.read()
            else:
                d = f.read(e["n"])
            return {"t": "ok", "raw": d}
        s = self.h[e["h"] - 1]
        if op == "read":
            sh, d, miss = s.read(e["a"], e["n"])
            return {"t": "ok", "shift": sh or 0, "miss": bool(miss),
                    "data": self.data(e["h"], e["a"], d)}
        if op == "readBytes":
            d = s.readBytes(e["a"], e["n"])
            return {"t": "ok", "data": self.data(e["h"], e["a"], d)}
        if op == "readBits":
            n = e["n"]
            if e["how"] == "bits":
                v = s.readBits(e["a"], n, EN[e["en"]])
            else:
                v = s.readInteger(e["a"], e["how"] == "signed", n, EN[e["en"]])
            lo, hi = (-(1 << n - 1), 1 << n - 1) if e["how"] == "signed" \
                else (0, 1 << n)
            if type(v) is not int or not lo <= v < hi:
                return {"t": "range"}
            v %= 1 << n
            return {"t": "ok", "bits": [v >> (n - 1 - i) & 1 for i in range(n)]}
        if op == "sizeGe":
            b = s.sizeGe(e["n"], const=True) if e["const"] else s.sizeGe(e["n"])
            return {"t": "ok", "b": bool(b)}
        if op in ("search", "searchLen"):
            nd = self.hdr["needles"][e["nd"] - 1] if self.hdr["big"] else e["nd"]
            nd = bytes(nd)
            end = None if e["e"] < 0 else e["e"]
            if op == "search":
                p = s.searchBytes(nd, e["a"], end)
            else:
                p = s.searchBytesLength(nd, e["incl"], e["a"], end)
            return {"t": "ok", "v": -1 if p is None else p}
        if op == "ask":
            c = Client()
            z = s.askSize(c)
            self.clients.append(c)
            return {"t": "ok", "v": -1 if z is None else z}
        if op == "fopen":
            f = s.file()
            self.views.append((e["h"], f))
            return {"t": "ok"}
        raise ValueError(op)


def record(job):
    """job: dict(hdr=..., src=bytes, ops=[...]) -> trace"""
    hdr, src, ops = job["hdr"], job["src"], job["ops"]
    t = dict(hdr)
    t["n"] = len(src)
    if not hdr["big"]:
        t["src"] = list(src)
    t.pop("needles", None)
    w = World(hdr, src)
    ev = []
    vpos = []       # position of each view, only to name intervals
    try:
        ev.append({"op": "nop", "res": {"t": "ok"}, "obs": w.obs()})
        for op in ops:
            e = dict(op)
            try:
                res = w.do(e)
            except InputStreamError as err:
                res = {"t": "err"}
            except Exception as err:
                res = {"t": exc_name(err)}
            e.pop("t0", None)
            if e["op"] == "fopen" and res["t"] != "ok":
                ev.append(dict(e, res=res, obs=w.obs()))
                break
            if e["op"] == "fopen":
                vpos.append(0)
            elif e["op"] == "fseek" and res["t"] == "ok":
                h = w.views[e["v"] - 1][0]
                total = total_bytes(hdr, len(src), h)
                np = (e["p"] if e["w"] == 0 else
                      vpos[e["v"] - 1] + e["p"] if e["w"] == 1
                      else total + e["p"])
                vpos[e["v"] - 1] = np
            elif e["op"] == "fread" and res["t"] == "ok":
                d = res.pop("raw")
                h = w.views[e["v"] - 1][0]
                p = max(0, vpos[e["v"] - 1])
                res["data"] = w.data(h, 8 * p, d)
                vpos[e["v"] - 1] = p + len(d)
            if e["op"] == "readBits":
                e.setdefault("how", "bits")
            e["res"] = res
            e["obs"] = w.obs()
            ev.append(e)
    finally:
        w.close()
    t["ev"] = ev
    return t


def total_bytes(hdr, n, i):
    """True size in bytes of stream i (to place seeks from the end)."""
    s = hdr["st"][i - 1]
    if s["k"] == "base":
        return n
    if s["k"] == "sub":
        av = 8 * total_bytes(hdr, n, s["of"]) - s["off"]
        return (av if s["size"] < 0 else min(av, s["size"])) // 8
    if s["k"] == "frag":
        tot = 0
        av = 8 * total_bytes(hdr, n, s["of"])
        for a, z in s["frags"]:
            got = max(0, min(z, av - a))
            tot += got
            if got < z:
                break
        return tot // 8
    return total_bytes(hdr, n, s["of"]) + total_bytes(hdr, n, s["of2"])


def bits_of(hdr, n, i):
    s = hdr["st"][i - 1]
    if s["k"] == "sub":
        av = bits_of(hdr, n, s["of"]) - s["off"]
        return av if s["size"] < 0 else min(av, s["size"])
    return 8 * total_bytes(hdr, n, i)


BASE = {"k": "base", "of": 0, "of2": 0, "off": 0, "size": -1, "frags": []}


def sub(of, off, size=-1):
    return dict(BASE, k="sub", of=of, off=off, size=size)


def frag(of, frags):
    return dict(BASE, k="frag", of=of, frags=[list(f) for f in frags])


def concat(a, b):
    return dict(BASE, k="concat", of=a, of2=b)


def rand_world(r, kinds=None, maxn=40, unaligned=False, extra=True):
    """A random header and source."""
    kind = r.choice(kinds or ["string", "file", "pipe", "pipe", "sized"])
    n = r.randint(1, maxn)
    if r.random() < .3:
        n = max(1, 4 * r.randint(1, maxn // 4) + r.choice((-1, 0, 0, 1)))
    alpha = r.choice((2, 3, 256))
    src = bytes(r.randrange(alpha) if alpha < 256 else r.randrange(256)
                for _ in range(n))
    st = [dict(BASE)]
    if extra:
        for _ in range(r.randint(0, 3)):
            j = r.randint(1, len(st))
            hdr0 = {"st": st}
            T = bits_of(hdr0, n, j)
            c = r.random()
            if c < .55:
                if T < 8 or not direct(st, j) and False:
                    continue
                if unaligned and r.random() < .4:
                    off = r.randrange(T)
                    size = r.randint(1, T - off)
                    if r.random() < .2:
                        size = -1
                else:
                    off = 8 * r.randrange(T // 8)
                    av = (T - off) // 8
                    if av < 1:
                        continue
                    z = r.random()
                    size = (-1 if z < .35 else 8 * av if z < .5
                            else 8 * r.randint(1, av) if z < .9
                            else 8 * (av + r.randint(1, 5)))
                st.append(sub(j, off, size))
            elif c < .85:
                if T % 8 or not aligned(st, j):
                    continue
                fr = []
                nb = T // 8
                for _ in range(r.randint(1, 5)):
                    a = r.randrange(nb)
                    z = r.randint(1, max(1, min(nb - a, 8)))
                    if r.random() < .05:
                        z += r.randint(1, 4)
                    fr.append([8 * a, 8 * z])
                # a lone fragment always lies inside its parent (the field
                # it stands for does); a chain may be cut by the end of data
                if len(fr) == 1 and fr[0][0] + fr[0][1] > T:
                    continue
                g = frag(j, fr)
                if bits_of({"st": st + [g]}, n, len(st) + 1) == 0:
                    continue
                st.append(g)
            else:
                k = r.randint(1, len(st))
                # the first part must have a known size
                if (bits_of(hdr0, n, j) % 8 or bits_of(hdr0, n, k) % 8
                        or not aligned(st, j) or not aligned(st, k)):
                    continue
                if kind in ("string", "file", "sized") and direct(st, j):
                    st.append(concat(j, k))
    hdr = {"kind": kind, "B": 4 if SCALABLE else REAL_B,
           "W": r.choice((1, 2, 2, 3)) if SCALABLE else REAL_W,
           "st": st, "big": False,
           "real": kind == "file" and r.random() < .3}
    return hdr, src


def direct(st, j):
    s = st[j - 1]
    return s["k"] == "base" or s["k"] == "sub" and direct(st, s["of"])


def aligned(st, j):
    s = st[j - 1]
    return s["k"] != "sub" or (s["off"] % 8 == 0 and aligned(st, s["of"])
                               and (s["size"] < 0 or s["size"] % 8 == 0))


def rand_ops(r, hdr, n, count, weights, opened=None,
             viewable=None):
    """Random operations; weights: dict op -> weight."""
    ops = []
    views = []
    if opened:
        ops.append({"op": "fopen", "h": opened})
        views.append(opened)
    names = list(weights)
    w = [weights[k] for k in names]
    nst = len(hdr["st"])
    focus = r.randint(1, nst)
    while len(ops) < count:
        op = r.choices(names, w)[0]
        h = focus if r.random() < .5 else r.randint(1, nst)
        T = bits_of(hdr, n, h)
        al = aligned(hdr["st"], h)
        e = {"op": op, "h": h}
        if op == "read":
            e["a"] = r.randint(0, T + 9)
            e["n"] = r.choice((r.randint(0, 8), r.randint(1, 40),
                               r.randint(1, T + 20)))
            if hdr["st"][h - 1]["k"] in ("frag", "concat") and r.random() < .5:
                e["a"] -= e["a"] % 8
        elif op == "readBytes":
            e["a"] = 8 * r.randint(0, T // 8 + 1)
            if r.random() < .05:
                e["a"] += r.randint(1, 7)
            e["n"] = r.choice((0, 1, r.randint(1, 5), r.randint(1, T // 8 + 3)))
        elif op == "readBits":
            e["en"] = r.choice(("BE", "LE", "ME"))
            if e["en"] == "ME" and not al:
                continue
            e["a"] = r.randint(0, T + 2)
            e["n"] = r.choice((r.randint(1, 9), r.randint(1, 33), 8, 16, 24,
                               32, 64, r.randint(1, 70)))
            if r.random() < .7 and e["n"] < T:
                e["a"] = r.randint(0, T - e["n"])
            e["how"] = r.choice(("bits", "signed", "unsigned"))
        elif op == "sizeGe":
            e["n"] = max(1, r.choice((T, T + 1, T - 1, T + 8, r.randint(1, T + 30))))
            e["const"] = r.random() < .3
        elif op in ("search", "searchLen"):
            if not al or (hdr["st"][h - 1]["k"] == "sub" and T % 8):
                continue
            e["len"] = r.choice((1, 1, 2, 2, 3, 4, 6))
            e["nd"] = [r.randrange(2) for _ in range(e["len"])]
            e["a"] = 8 * r.randint(0, T // 8 + 1)
            if r.random() < .04:
                e["a"] += 3
            e["e"] = -1 if r.random() < .5 else r.randint(0, T + 24)
            if op == "searchLen":
                e["incl"] = r.random() < .5
        elif op == "ask":
            pass
        elif op == "fopen":
            if (not al or T % 8 or len(views) >= 3
                    or viewable is not None and h not in viewable):
                continue
            views.append(h)
        elif op in ("fseek", "ftell", "fread"):
            if not views:
                continue
            e = {"op": op, "v": r.randint(1, len(views))}
            T8 = bits_of(hdr, n, views[e["v"] - 1]) // 8
            if op == "fseek":
                e["w"] = r.choice((0, 1, 2))
                e["p"] = (r.randint(-1, T8 + 3) if e["w"] == 0 else
                          r.randint(-4, 5) if e["w"] == 1 else
                          r.randint(-T8 - 2, 3))
                if e["w"] == 0 and r.random() < .8:
                    e["p"] = max(0, e["p"])
            elif op == "fread":
                e["n"] = r.choice((-2, -1, 0, 1, 2, 3, 5, r.randint(1, T8 + 3)))
        ops.append(e)
    return ops
