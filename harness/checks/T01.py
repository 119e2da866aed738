"""T01: hachoir-strip (spec/Strip.tla)."""
import os
import realtree as rt
import strip_h as st


def classify(t, k):
    return "%s:%s" % (t["ev"][k]["op"], t["doc"]["fmt"])


def run(ctx):
    ctx.model_check("StripMC", ctx.n("StripMC", "StripMCBig"))
    jobs = [{"name": "%s-%s-%d" % (f, ctx.seed, i), "fmt": f}
            for f in st.MAKE for i in range(ctx.n(
                {"riff": 400, "tar": 60}.get(f, 120),
                {"riff": 4000, "tar": 500}.get(f, 1000)))]
    for path in rt.samples(ctx.n(6000, 60000)):
        with open(path, "rb") as f:
            data = f.read()
        t = st.read_riff(data) if data[:4] == b"RIFF" else None
        if t:
            jobs += [{"name": "%s-%d" % (os.path.basename(path), i), "doc": t}
                     for i in range(4)]
    ctx.validate("StripTrace", ctx.pmap(st.record, jobs), classify=classify,
                 chunk=2000)
    jobs = []
    for path in rt.samples(ctx.n(3000000, 1 << 30)):
        if path.endswith((".png", ".jpg", ".mp3")):
            for i, lv in enumerate(([["index"], ["useless", "metadata"],
                                     ["metadata"]],
                                    [["metadata", "index"], ["metadata"]])):
                jobs.append({"file": path, "levels": lv, "name": "%s-%d"
                             % (os.path.basename(path), i)})
    ctx.validate("StripTrace", ctx.pmap(st.record_real, jobs, seconds=120),
                 classify=classify)
