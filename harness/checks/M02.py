"""M02: exports of metadata (spec/Metadata.tla)."""
import os
import meta_h as mh
import realtree as rt


def classify(t, k):
    return t["ev"][k]["op"]


def run(ctx):
    ctx.model_check("MetadataMC", ctx.n("MetadataMCCut", "MetadataMCBig"))
    jobs = [{"name": "x%s-%d" % (ctx.seed, i), "multi": i % 5 > 0,
             "focus": "export", "count": 10 + i % 20}
            for i in range(ctx.n(2400, 30000))]
    ctx.validate("MetadataTrace", ctx.pmap(mh.record, jobs), classify=classify)
    jobs = [{"name": "%s-%s-%d" % (ctx.seed, os.path.basename(p), i),
             "file": p, "quality": (0.5, 1.0, 0.0)[i], "count": ctx.n(6, 40)}
            for p in rt.samples(ctx.n(1000000, 1 << 30))
            for i in range(ctx.n(1, 3))]
    ctx.validate("MetadataTrace", [t for t in ctx.pmap(
        mh.record_real, jobs, seconds=60) if t], classify=classify)
