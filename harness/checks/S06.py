"""S06: output streams write exactly what was asked (spec/OutStream.tla)."""
import io
import os
import random
import tempfile
import streams_h as sh
from lib import exc_name
from hachoir.stream import (StringInputStream, StringOutputStream,
                            FileOutputStream)
from hachoir.stream.output import OutputStream


def bits(v, n):
    return [v >> (n - 1 - i) & 1 for i in range(n)]


def job(seed):
    r = random.Random(seed)
    src = r.randbytes(r.choice((r.randint(1, 50), r.randint(1, 50), 150)))
    ops = []
    en = r.choice(("BE", "LE"))
    pend = 0
    for _ in range(r.randint(3, 25)):
        if pend == 0 and r.random() < .3:
            en = "LE" if en == "BE" else "BE"
        c = r.random()
        if c < .35:
            n = r.choice((0, 1, 2, 3, 5, 7, 8, 9, 15, 16, 17, 24, 31, 33, 64,
                          r.randint(1, 80)))
            if pend and r.random() < .3:
                n = 8 - pend + 8 * r.randint(0, 2)
            v = r.choice((r.getrandbits(n) if n else 0, (1 << n) - 1,
                          1 << n - 1 if n else 0))
            bad = r.random() < .06
            if bad:
                v = r.choice(((1 << n), -1, (1 << n) + 5))
            else:
                pend = (pend + n) % 8
            ops.append({"op": "writeBits", "n": n, "val": v, "en": en,
                        "fits": not bad, "v": [] if bad else bits(v, n)})
        elif c < .55:
            for _ in range(r.choice((1, 3, 8, 11, (8 - pend) % 8))):
                v = r.random() < .5
                ops.append({"op": "writeBit", "n": 1, "val": v, "en": en,
                            "fits": True, "v": [int(v)]})
                pend = (pend + 1) % 8
        elif c < .65:
            ops.append({"op": "writeBytes",
                        "d": list(r.randbytes(r.randint(1, 5)))})
        elif c < .8:
            n = r.choice((1, 2, 3, 4, 8))
            sg = r.random() < .5
            z = r.random()
            v = r.getrandbits(8 * n)
            if z < .5 and sg:
                v -= 1 << 8 * n - 1
            elif z < .9:
                v = r.choice((0, 1, (1 << 8 * n - 1) - 1, 1 << 8 * n - 1,
                              (1 << 8 * n) - 1, 1 << 8 * n, -1,
                              -(1 << 8 * n - 1), -(1 << 8 * n - 1) - 1))
            ops.append({"op": "writeInteger", "n": n, "signed": sg, "val": v,
                        "neg": v < 0, "mag": bits(abs(v), abs(v).bit_length()),
                        "en": en})
        elif c < .87:
            n = r.randint(0, len(src) + (r.random() < .2) * 5)
            a = 8 * r.randint(0, max(0, len(src) - n))
            if r.random() < .1:
                a += r.randint(1, 7)
            ops.append({"op": "copyBytes", "a": a, "n": n})
        elif c < .95:
            T = 8 * len(src)
            n = r.choice((1, 8, 16, r.randint(1, T), r.randint(1, 20)))
            a = r.randint(0, max(0, T - n) + (3 if r.random() < .1 else 0))
            if r.random() < .4:
                a -= a % 8
            ops.append({"op": "copyBits", "a": a, "n": n, "en": en})
            if a + n > T:
                break        # what was copied before the end is not specified
            pend = (pend + n) % 8
        else:
            ops.append({"op": "readBytes", "a": 8 * r.randint(0, 12),
                        "n": r.randint(1, 12)})
    return {"name": "random-%s" % seed, "src": src, "ops": ops,
            "kind": r.choice(("string", "string", "bytesio", "file"))}


def gen_job(i, hist):
    ops = []
    for e in hist:
        e = dict(e)
        if e["op"] == "writeBits":
            n = len(e["v"])
            v = int("".join(map(str, e["v"])), 2)
            e.update(n=n, val=v, fits=True)
            if n == 1 and i % 2:
                e.update(op="writeBit", val=bool(v))
        ops.append(e)
    ops.append({"op": "readBytes", "a": 0, "n": 20})
    ops.append({"op": "readBytes", "a": 8, "n": 2})
    return {"name": "gen-%d" % i, "src": b"x", "ops": ops, "kind": "string"}


def record(job):
    src = job["src"]
    t = {"name": job["name"], "src": list(src),
         "ev": []}
    inp = StringInputStream(src)
    path = None
    try:
        if job["kind"] == "file":
            fd, path = tempfile.mkstemp(prefix="verif-out-")
            os.close(fd)
            o = FileOutputStream("name", path)
        elif job["kind"] == "bytesio":
            o = OutputStream(io.BytesIO())
        else:
            o = StringOutputStream()

        def content():
            if path:
                o._output.flush()
                return list(open(path, "rb").read())
            return list(o._output.getvalue())
        t["ev"].append({"op": "nop", "res": "ok", "out": content()})
        for op in job["ops"]:
            e = dict(op)
            val = e.pop("val", None)
            n, en = e.get("n"), sh.EN.get(e.get("en"))
            try:
                k = e["op"]
                if k == "writeBits":
                    o.writeBits(n, val, en)
                elif k == "writeBit":
                    o.writeBit(val, en)
                elif k == "writeBytes":
                    o.writeBytes(bytes(e["d"]))
                elif k == "writeInteger":
                    o.writeInteger(val, e["signed"], n, en)
                elif k == "copyBytes":
                    o.copyBytesFrom(inp, e["a"], n)
                elif k == "copyBits":
                    o.copyBitsFrom(inp, e["a"], n, en)
                elif k == "readBytes":
                    e["d"] = []
                    e["readable"] = job["kind"] != "file"
                    e["d"] = list(o.readBytes(e["a"], n))
                e["res"] = "ok"
            except Exception as err:
                e["res"] = exc_name(err)
            e["out"] = content()
            t["ev"].append(e)
        o.close()
    finally:
        if path:
            os.unlink(path)
    return t


def record_copy(item):
    """Copies larger than the copy buffer, compared as intervals: out is
    [offset of the copied part in the source, length]."""
    seed, n = item
    r = random.Random(seed)
    src = r.randbytes(n)
    a = r.choice((0, 1, r.randrange(n)))
    k = r.choice((n - a, max(1, n - a - 1), r.randint(1, n - a)))
    bitwise = r.random() < .5
    o = StringOutputStream()
    try:
        if bitwise:
            o.copyBitsFrom(StringInputStream(src), 8 * a, 8 * k, sh.EN["BE"])
        else:
            o.copyBytesFrom(StringInputStream(src), 8 * a, k)
        res = "ok"
    except Exception as err:
        res = exc_name(err)
    d = o._output.getvalue()
    j = src.find(d[:16]) if len(d) >= 16 else a
    return {"name": "copy-%s" % seed, "ev": [
        {"op": "copy", "a": a, "n": k, "res": res,
         "got": [j, len(d)] if src[j:j + len(d)] == d else [-1, len(d)]}]}


def run(ctx):
    ctx.model_check("OutMC")
    jobs = [gen_job(i, h) for i, h in enumerate(ctx.export("OutMC", "OutGen"))]
    jobs += [job("%s-%d" % (ctx.seed, i)) for i in range(ctx.n(2000, 25000))]
    ctx.validate("OutTrace", ctx.pmap(record, jobs))
    items = [("%s-%d" % (ctx.seed, i), n) for i in range(ctx.n(4, 40))
             for n in (4095, 4096, 4097, 8192, 8193, 70000)]
    ctx.validate("CopyTrace", ctx.pmap(record_copy, items))
