"""S04: the file-like view of a stream is a read-only file (spec/Streams.tla)."""
import random
import streams_h as sh


def job(seed):
    r = random.Random(seed)
    hdr, src = sh.rand_world(r)
    ops = []
    hs = [h for h in range(1, len(hdr["st"]) + 1)
          if sh.aligned(hdr["st"], h) and sh.bits_of(hdr, len(src), h) % 8 == 0]
    # (a window announced larger than its pipe has no defined end beforehand)
    hs = [h for h in hs if not over_declared(hdr, len(src), h)]
    w = {"fseek": 5, "ftell": 2, "fread": 6, "read": 1, "readBytes": 1,
         "fopen": 1, "sizeGe": .3, "search": .3}
    h = r.choice(hs)
    ops = sh.rand_ops(r, hdr, len(src), r.randint(4, 30), w, opened=h, viewable=hs)
    hdr["name"] = "random-%s" % seed
    return {"hdr": hdr, "src": src, "ops": ops}


def over_declared(hdr, n, h):
    s = hdr["st"][h - 1]
    if hdr["kind"] != "pipe" or s["k"] == "base":
        return False
    if s["k"] == "sub" and s["size"] >= 0:
        return s["size"] > sh.bits_of(hdr, n, h) or over_declared(hdr, n, s["of"])
    return any(over_declared(hdr, n, x) for x in (s["of"], s["of2"]) if x)


def big_job(r, i, kind):
    """Real block sizes, a size unknown until the end is read."""
    n = r.choice((sh.REAL_B - 1, sh.REAL_B, sh.REAL_B + 1, 3 * sh.REAL_B + 5,
                  200000))
    src = r.randbytes(n)
    hdr = {"kind": kind, "B": sh.REAL_B, "W": sh.REAL_W,
           "st": [dict(sh.BASE)], "big": True, "occ": [], "needles": [],
           "real": kind == "file", "name": "big-%s-%d" % (kind, i)}
    ops = [{"op": "fopen", "h": 1}]
    for _ in range(r.randint(3, 12)):
        o = r.choice(("fseek", "ftell", "fread", "fread"))
        if o == "fseek":
            w = r.choice((0, 1, 2, 2))
            p = r.randint(0, n + 5) if w == 0 else r.randint(-n - 9, 9)
            ops.append({"op": o, "v": 1, "w": w, "p": p})
        elif o == "ftell":
            ops.append({"op": o, "v": 1})
        else:
            ops.append({"op": o, "v": 1, "n": r.choice(
                (-2, -1, 0, 1, 7, 4096, sh.REAL_B, r.randint(1, n)))})
        if r.random() < .3:
            a = r.choice((4090, 8185, sh.REAL_B - 5, r.randrange(n)))
            ops.append({"op": "readBytes", "h": 1, "a": 8 * min(a, n - 1), "n": 12})
    return {"hdr": hdr, "src": src, "ops": ops}


def gen_job(i, hist, kind):
    hdr = {"kind": kind, "B": 4 if sh.SCALABLE else sh.REAL_B,
           "W": 8 if sh.SCALABLE else sh.REAL_W, "st": [dict(sh.BASE)],
           "big": False, "real": False, "name": "gen-%d" % i}
    ops = [{"op": "fopen", "h": 1}]
    ops += [dict(e, v=1) for e in hist]
    return {"hdr": hdr, "src": bytes((3, 1, 4, 1)), "ops": ops}


def run(ctx):
    ctx.model_check("FileViewMC")
    jobs = []
    for i, h in enumerate(ctx.export("FileViewMC", "FileViewGen")):
        jobs.append(gen_job(i, h, ("pipe", "file", "string")[i % 3]))
    jobs += [job("%s-%d" % (ctx.seed, i)) for i in range(ctx.n(2500, 25000))]
    jobs += [big_job(ctx.rng, i, ("pipe", "file", "string", "sized")[i % 4])
             for i in range(ctx.n(160, 1200))]
    traces = ctx.pmap(sh.record, jobs)
    ctx.validate("StreamsTrace", traces)
