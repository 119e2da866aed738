"""S01: streams return exactly the source's bits (spec/Streams.tla)."""
import random
import streams_h as sh


def job(seed):
    r = random.Random(seed)
    hdr, src = sh.rand_world(r, unaligned=True)
    exact = hdr["kind"] in ("pipe", "sized") and r.random() < .5
    if exact:
        # only reads: the block cache of the pipe is followed exactly
        w = {"read": 6, "readBytes": 6}
    else:
        w = {"read": 6, "readBytes": 6, "readBits": 2, "sizeGe": 1,
             "search": 1, "ask": 1}
    ops = sh.rand_ops(r, hdr, len(src), r.randint(4, 30), w)
    hdr["name"] = "random-%s" % seed
    return {"hdr": hdr, "src": src, "ops": ops}


def gen_job(i, hist):
    hdr = {"kind": "pipe", "B": 2, "W": 2, "st": [dict(sh.BASE)], "big": False,
           "real": False, "name": "gen-%d" % i}
    ops = [{"op": "read", "h": 1, "a": 8 * a, "n": 8 * n} for a, n in hist]
    return {"hdr": hdr, "src": bytes(range(1, 8)), "ops": ops}


def run(ctx):
    ctx.model_check("PipeMC")
    jobs = []
    if sh.SCALABLE:
        for i, h in enumerate(ctx.export("PipeMC", "PipeGen")):
            jobs.append(gen_job(i, h))
    jobs += [job("%s-%d" % (ctx.seed, i)) for i in range(ctx.n(1500, 20000))]
    traces = ctx.pmap(sh.record, jobs)
    ctx.validate("StreamsTrace", traces)
