"""F06: seekable field sets (spec/FieldTree.tla, Covers)."""
import random
import fields_h as fh
import realtree

WEIGHTS = dict(fh.WEIGHTS, byaddr=5, value=4)


def job(seed, mode):
    r = random.Random(seed)
    src = r.randbytes(r.choice((1, 2, 3, 5, 8, 12, 20)))
    skb = r.random() < .8
    prog = fh.seekify(r, fh.rand_prog(r), skb, 8 * len(src))
    return {"name": "%s-%s" % (mode, seed), "prog": prog, "src": src,
            "seed": seed, "skb": skb, "mode": mode, "weights": WEIGHTS,
            "count": r.randint(5, 40), "fix": mode != "strict"}


def run(ctx):
    ctx.model_check("FieldTreeMC", "SeekRoot")
    ctx.model_check("FieldTreeMC", "SeekNest")
    jobs = [job("%s-%d" % (ctx.seed, i), m)
            for m, k in (("explore", ctx.n(900, 12000)),
                         ("walk", ctx.n(500, 6000)),
                         ("strict", ctx.n(200, 3000))) for i in range(k)]
    ctx.validate("FieldTreeTrace", ctx.pmap(fh.record, jobs))
    jobs = [{"file": f, "mode": m, "seed": "%s-%d-%d" % (ctx.seed, i, k),
             "limit": ctx.n(300, 6000), "wide": ctx.n(250, 2500),
             "seekable": True}
            for i, f in enumerate(realtree.samples(ctx.n(400000, 2000000)))
            for k, m in enumerate(ctx.n("-bt", "-ttmmbbtmbtmb"))]
    trees = [t for t in ctx.pmap(realtree.tree, jobs) if t]
    ctx.validate("TilingTrace", trees,
                 classify=lambda t, k: t["name"].split()[0])
