"""F07: embedded data (spec/Embed.tla)."""
import embed_h as eh


def classify(t, k):
    e = t["ev"][k]
    return "%s.%s" % (t["name"].split("-")[0], e["op"])


def run(ctx):
    ctx.model_check("EmbedMC", "EmbedFrag")
    ctx.model_check("EmbedMC", "EmbedComp")
    jobs = []
    for kind, cfg in (("frag", "EmbedFragGen"), ("comp", "EmbedCompGen")):
        xs = ctx.export("EmbedMC", cfg)
        if len(xs) > ctx.n(2500, 10 ** 9):
            xs = ctx.rng.sample(xs, ctx.n(2500, 10 ** 9))
        jobs += [(kind, i, x["x"], x["ops"]) for i, x in enumerate(xs)]
    traces = [t for t in ctx.pmap(eh.replay, jobs) if t]
    ctx.validate("EmbedTrace", traces, classify=classify, what="behaviour")
    traces = []
    for kind, n in (("doc", 1200), ("fat", 60), ("ogg", 120), ("png", 60),
                    ("gzip", 20), ("bzip2", 20)):
        traces += ctx.pmap(eh.record, [(kind, "%s-%d" % (ctx.seed, i))
                                       for i in range(ctx.n(n, 12 * n))])
    ctx.validate("EmbedTrace", traces, classify=classify)
