"""A01: unpacked data is what was packed (Unpack, Packers, UnpackMC,
UnpackTrace)."""
import unpack_h as uh


def classify(t, k):
    e = t["ev"][k]
    p = t["hdr"]["parts"][e["part"] - 1]
    return "%s:%s:%s:%s" % (t["hdr"]["kind"], p["codec"], e["op"], e["raised"])


def run(ctx):
    ctx.model_check("UnpackMC", ctx.n("UnpackMC", "UnpackMCBig"),
                    min_states=1000)
    docs = {}
    for d in ctx.export("UnpackMC", "UnpackGen"):
        docs.setdefault(d["codec"], []).append(d)
    for v in docs.values():
        v.sort(key=repr)
    ctx.note("packed texts: %s" % {c: len(v) for c, v in sorted(docs.items())})
    jobs = []
    for kind in uh.KINDS:
        for i in range(ctx.n(32, 600) * (3 if kind in ("cab", "zip", "zlib")
                                         else 1)):
            jobs.append({"seed": "%s-%s-%d" % (ctx.seed, kind, i),
                         "kind": kind,
                         "docs": {c: ctx.rng.sample(v, 6)
                                  for c, v in docs.items()}})
    traces = ctx.pmap(uh.record, jobs, seconds=120)
    lzx = [{"seed": "%s-%d" % (ctx.seed, i), "docs": {"lzx": [d]}}
           for i, d in enumerate(docs["lzx"])]
    traces += ctx.pmap(uh.record_lzx, lzx, seconds=120)
    ctx.validate("UnpackTrace", traces, classify=classify, chunk=300)
