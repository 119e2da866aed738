"""M03: what is learned from documents (spec/Facts.tla)."""
import os
import facts_h as fh
import realtree as rt


def classify(t, k):
    e = t["ev"][k]
    return "%s:%s:%s" % (e["op"], t["hdr"]["fmt"], e["kind"])


def run(ctx):
    ctx.model_check("FactsMC", ctx.n("FactsMC", "FactsMCBig"), min_states=1000)
    docs = ctx.export("FactsMC", "FactsGen")
    by = {}
    for d in docs:
        by.setdefault(d["fmt"], []).append(d)
    ctx.note("documents: %s" % {f: len(v) for f, v in sorted(by.items())})
    jobs = []
    for f, v in sorted(by.items()):
        v.sort(key=repr)
        for i, d in enumerate(ctx.rng.sample(v, min(len(v), ctx.n(10, 100)))):
            jobs += [{"name": "%s-%s-%d-%d" % (ctx.seed, f, i, j), "doc": d,
                      "count": ctx.n(10, 40)} for j in range(ctx.n(1, 4))]
    jobs += [{"name": "%s-whole-%d" % (ctx.seed, i), "doc": d, "count": 0}
             for i, d in enumerate(docs)]
    traces = ctx.pmap(fh.record, jobs, seconds=600)
    damaged = [e["acc"] for t in traces for e in t["ev"] if e["kind"] != "whole"]
    ctx.note("damaged documents read: %d of %d"
             % (sum(1 for a in damaged if a), len(damaged)))
    ctx.validate("FactsTrace", traces, classify=classify)
    jobs = [{"name": "%s-%s" % (ctx.seed, os.path.basename(p)), "file": p,
             "modes": ctx.n("nb", "n" + "tmb" * 8)}
            for p in rt.samples(ctx.n(400000, 1 << 30))]
    ctx.validate("FactsTrace", ctx.pmap(fh.record_real, jobs, seconds=900),
                 classify=classify)
