"""F03: damaged input is repaired (spec/FieldTree.tla: Run, Prefix)."""
import random
import fields_h as fh
import realtree


def jobs_for(seed):
    """One program on every truncation of its source, repaired and not."""
    r = random.Random(seed)
    prog = fh.rand_prog(r, clean=r.random() < .5, fits=r.random() < .8,
                        peek=r.random() < .5)
    src = r.randbytes(r.choice((2, 3, 5, 8, 12)))
    for m in range(1, len(src) + 1):
        for fix in (True, False):
            if not fix and m % 2 == len(src) % 2:
                continue
            yield {"name": "%s-%s-%d" % ("fix" if fix else "strict", seed, m),
                   "prog": prog, "src": src[:m], "seed": seed, "fix": fix,
                   "mode": "walk" if fix else "strict"}


def run(ctx):
    ctx.model_check("FieldTreeMC", ctx.n("FieldTreeCut", "FieldTreeMC"))
    jobs = [j for i in range(ctx.n(140, 2500))
            for j in jobs_for("%s-%d" % (ctx.seed, i))]
    ctx.validate("FieldTreeTrace", ctx.pmap(fh.record, jobs))
    files = realtree.samples(ctx.n(120000, 2000000))
    jobs = [{"file": f, "mode": m, "seed": "%s-%d-%d" % (ctx.seed, i, k),
             "limit": ctx.n(300, 3000), "wide": 200}
            for i, f in enumerate(files)
            for k, m in enumerate(ctx.n("ttmb", "tmb" * 20))]
    trees = [t for t in ctx.pmap(realtree.tree, jobs) if t]
    ctx.validate("TilingTrace", trees,
                 classify=lambda t, k: t["name"].split()[0])
    jobs = [{"file": f, "seed": "%s-%d-%d" % (ctx.seed, i, k),
             "limit": ctx.n(300, 3000)}
            for i, f in enumerate(files) for k in range(ctx.n(2, 40))]
    ctx.validate("CutTrace", [t for t in ctx.pmap(realtree.cut, jobs) if t],
                 classify=lambda t, k: t["name"].split()[0])
