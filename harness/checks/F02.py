"""F02: lazy parsing is confluent (spec/FieldTree.tla)."""
import random
import fields_h as fh
import realtree


def job(seed):
    r = random.Random(seed)
    peek = r.random() < .3
    prog = fh.rand_prog(r, peek=peek)
    src = r.randbytes(r.choice((1, 2, 3, 5, 8, 12, 20)))
    return {"name": "random-%s" % seed, "prog": prog, "src": src, "seed": seed,
            "count": r.randint(5, 40), "mode": "explore",
            "weights": dict(fh.WEIGHTS, reset=0) if peek else fh.WEIGHTS}


def gen_job(i, h):
    prog = [unroll(it) for it in h["prog"]]
    src = bytes(73 if k % 2 == 0 else 172 for k in range(h["n"]))
    ops = [dict(e, const=False) if e["op"] == "idx" else e for e in h["ops"]]
    return {"name": "gen-%d" % i, "prog": prog, "src": src, "seed": i,
            "mode": "ops", "ops": ops}


def unroll(it):
    it = dict(it)
    it["prog"] = [unroll(x) for x in it["prog"]]
    return it


def run(ctx):
    ctx.model_check("FieldTreeMC", "FieldTreeLazy")
    jobs = [gen_job(i, h) for i, h in
            enumerate(ctx.export("FieldTreeMC", "FieldTreeGen"))]
    if not ctx.thorough:
        ctx.rng.shuffle(jobs)
        jobs = jobs[:800]
    jobs += [job("%s-%d" % (ctx.seed, i)) for i in range(ctx.n(1000, 15000))]
    ctx.validate("FieldTreeTrace", ctx.pmap(fh.record, jobs))
    jobs = [{"file": f, "seed": "%s-%d-%d" % (ctx.seed, i, k), "count": 50,
             "cut": .4} for i, f in enumerate(realtree.samples())
            for k in range(ctx.n(2, 25))]
    ctx.validate("FieldTreeTrace",
                 [t for t in ctx.pmap(fh.record_real, jobs) if t],
                 classify=lambda t, k: t["name"].split()[0])
