"""F01: finished field sets tile their bits (spec/FieldTree.tla, Tiling)."""
import random
import fields_h as fh
import realtree


def job(seed):
    r = random.Random(seed)
    prog = fh.rand_prog(r, fits=r.random() < .7,
                        peek=r.random() < .4)
    src = r.randbytes(r.choice((1, 2, 3, 5, 8, 12, 20, 40)))
    return {"name": "random-%s" % seed, "prog": prog, "src": src, "seed": seed,
            "mode": "walk"}


def run(ctx):
    ctx.model_check("FieldTreeMC", ctx.n("FieldTreeTile", "FieldTreeMC"))
    jobs = [job("%s-%d" % (ctx.seed, i)) for i in range(ctx.n(700, 12000))]
    ctx.validate("FieldTreeTrace", ctx.pmap(fh.record, jobs))
    files = realtree.samples(ctx.n(400000, 2000000))
    jobs = [{"file": f, "mode": m, "seed": "%s-%d-%d" % (ctx.seed, i, k),
             "limit": ctx.n(400, 6000), "wide": ctx.n(250, 2500)}
            for i, f in enumerate(files)
            for k, m in enumerate(ctx.n("-b", "-ttmmbbtmbtmb"))]
    trees = [t for t in ctx.pmap(realtree.tree, jobs) if t]
    ctx.validate("TilingTrace", trees,
                 classify=lambda t, k: t["name"].split()[0])
