"""E01: what the editor writes (spec/Editor.tla)."""
import os
import editor_h as eh
import realtree as rt


def run(ctx):
    ctx.model_check("EditorMC", ctx.n("EditorMC", "EditorMCBig"))
    jobs = [eh.rand_job("%s-w%d" % (ctx.seed, i))
            for i in range(ctx.n(800, 10000))]
    ctx.validate("EditorTrace", ctx.pmap(eh.record, jobs))
    jobs = [eh.rand_job("%s-v%d" % (ctx.seed, i))
            for i in range(ctx.n(800, 10000))]
    ctx.validate("EditorTrace", ctx.pmap(eh.record_values, jobs))
    files = rt.samples(ctx.n(400000, 1 << 30))
    small = [f for f in files if os.path.getsize(f) <= ctx.n(2500, 9000)]
    jobs = [{"file": f, "count": 3 + i * 2,
             "name": "%s-%d-%s" % (os.path.basename(f), i, ctx.seed)}
            for f in small for i in range(ctx.n(6, 40))]
    ctx.validate("EditorTrace", ctx.pmap(eh.record_file, jobs, seconds=60))
    ctx.validate("EditorTrace", ctx.pmap(eh.copy_file, files, seconds=100))
