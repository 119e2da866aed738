"""C01: what the command line tools print (spec/Cli.tla)."""
import os
import cli_h
import realtree as rt


def classify(t, k):
    e = t["ev"][k]
    h = t["hdr"]
    if e["op"] == "exit":
        return "%s:exit-%s" % (h["tool"], e["code"])
    return "%s:%s" % (h["tool"], e["op"])


def run(ctx):
    ctx.model_check("CliMC", ctx.n("CliMC", "CliMCBig"), min_states=4000)
    docs = [d for d in ctx.export("FactsMC", "FactsGen") if len(d["bytes"]) < 20000]
    docs.sort(key=repr)
    docs = ctx.rng.sample(docs, min(len(docs), 400))
    pool = rt.samples(40000)
    ids = ["png", "jpeg", "riff", "zip", "gzip", "tar", "bmp", "gif", "mpeg_audio",
           "no_such_parser", "ico", "python", "exe", "torrent"]
    jobs = [{"name": "%s-%d" % (ctx.seed, i), "docs": ctx.rng.sample(docs, 8),
             "pool": pool, "ids": ids, "scratch": ctx.scratch,
             "strict": bool(os.environ.get("CLI_STRICT"))}
            for i in range(ctx.n(450, 6000))]
    traces = [t for t in ctx.pmap(cli_h.session, jobs, seconds=200) if t]
    ctx.note("sessions: %d, of %d planned" % (len(traces), len(jobs)))
    ctx.validate("CliTrace", traces, classify=classify, chunk=2500)
