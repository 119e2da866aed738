"""F04: paths and arrays reach exactly the named field."""
import random
import fields_h as fh
import realtree

WEIGHTS = {"idx": 2, "path": 14, "len": .5, "value": .5, "more": 1.5,
           "iter": .5, "next": 2, "byaddr": 3, "agetlen": 2, "aget": 5,
           "abool": 1, "aiter": 1, "show": 3}


def job(seed):
    r = random.Random(seed)
    prog = fh.rand_prog(r, clean=r.random() < .7)
    src = r.randbytes(r.choice((3, 5, 8, 12, 20)))
    return {"name": "random-%s" % seed, "prog": prog, "src": src, "seed": seed,
            "count": r.randint(10, 50), "mode": "explore", "weights": WEIGHTS}


def run(ctx):
    ctx.model_check("FieldTreeMC", "FieldTreePath")
    jobs = [job("p%s-%d" % (ctx.seed, i)) for i in range(ctx.n(1000, 15000))]
    ctx.validate("FieldTreeTrace", ctx.pmap(fh.record, jobs))
    jobs = [{"file": f, "seed": "p%s-%d-%d" % (ctx.seed, i, k), "count": 50,
             "cut": .2, "weights": WEIGHTS}
            for i, f in enumerate(realtree.samples())
            for k in range(ctx.n(1, 20))]
    ctx.validate("FieldTreeTrace",
                 [t for t in ctx.pmap(fh.record_real, jobs) if t],
                 classify=lambda t, k: t["name"].split()[0])
